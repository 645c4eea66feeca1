"""Oracles over the documents astra writes."""
import json, re
from model import *


def own(schema, doc, seen=()):
    """Follows a reference to a component."""
    if "$ref" in schema:
        name = schema["$ref"].replace("#/components/schemas/", "", 1)
        return ((doc.get("components") or {}).get("schemas") or {}).get(name), name
    return schema, None


def props(schema, doc, depth=0):
    """The properties of an object schema, including those of the schemas it is composed of."""
    if schema is None or depth > 20:
        return {}
    out = dict(schema.get("properties") or {})
    for s in schema.get("allOf") or []:
        s2, _ = own(s, doc)
        for k, v in props(s2, doc, depth + 1).items():
            out.setdefault(k, v)
    return out


def expected_props(t, binding):
    """name -> desc of every property of a struct, promoted ones included; None if the binding has no names for it."""
    out = {}
    any_tag = any(binding in f.tags for f in t.fields)
    for f in t.fields:
        if f.embedded:
            tag = f.tags.get(binding, "")
            if tag == "-":
                continue
            if tag:
                out[tag] = desc(f.ft)
                continue
            if "-" in f.tags.values():
                return None
            sub = expected_props(strip(f.ft)[1], binding)
            if sub is None:
                return None
            for k, v in sub.items():
                out.setdefault(k, v)
            continue
        if not f.exported:
            continue
        n = f.prop(binding, any_tag)
        if n is False:
            return None
        if n is not None:
            out[n] = desc(f.ft)
    return out


class Matcher:
    """Compares schemas with descriptions, and records which component every type is described by."""

    def __init__(self, doc, binding="json", mappings=None):
        self.doc, self.binding, self.mappings = doc, binding, mappings or {}
        self.errors, self.done, self.by_type, self.by_comp, self.compared = [], set(), {}, {}, 0
        # What is wrong with a component, and with its documentation, is kept apart from what is wrong with a use of it
        self.comp_errors, self.doc_errors, self.id_errors, self.depth = [], [], [], 0

    def err(self, where, msg):
        (self.comp_errors if self.depth else self.errors).append("%s: %s" % (where, msg))

    def would(self, schema, d):
        """Whether a schema is that of a description, without looking into components."""
        m = Matcher(self.doc, self.binding, self.mappings)
        m.shallow = True
        m.match(schema, d, "", True)
        if d[0] == "n" or any(x[0] == "n" for x in d if isinstance(x, tuple)):
            t = [x for x in ([d] + [y for y in d if isinstance(y, tuple)]) if x[0] == "n"][0][1]
            if t in self.by_type and t in m.by_type and self.by_type[t] != m.by_type[t]:
                return False
            n = m.by_type.get(t)
            if n in self.by_comp and self.by_comp[n] is not t:
                return False
        return not m.errors

    def match(self, schema, d, where, loose_format=False):
        self.compared += 1
        if schema is None:
            self.err(where, "no schema")
            return
        k = d[0]
        if k == "b":
            ty, fm = TABLE[d[1]]
            if schema.get("type") != ty or (schema.get("format") != fm and not (loose_format and "format" not in schema)) or extra(schema, ("type", "format")):
                self.err(where, "Go %s described as %s" % (d[1], short(schema)))
        elif k == "any":
            if extra(schema, ("description",)):
                self.err(where, "any value described as %s" % short(schema))
        elif k == "file":
            if schema.get("type") != "string" or schema.get("format") != "binary":
                self.err(where, "binary described as %s" % short(schema))
        elif k == "obj":
            if schema.get("type") != "object":
                self.err(where, "object described as %s" % short(schema))
        elif k in ("s", "a"):
            if schema.get("type") != "array" or "items" not in schema or extra(schema, ("type", "items", "maxItems", "minItems", "description")):
                self.err(where, "list described as %s" % short(schema))
                return
            if k == "a" and schema.get("maxItems") != d[1]:
                self.err(where, "array of %d described as %s" % (d[1], short(schema)))
            self.match(schema["items"], d[-1], where + "[]", loose_format)
        elif k == "m":
            ap = schema.get("additionalProperties")
            if schema.get("type") != "object" or not isinstance(ap, dict) or extra(schema, ("type", "additionalProperties", "description")):
                self.err(where, "map described as %s" % short(schema))
                return
            self.match(ap, d[1], where + "{}", loose_format)
        elif k == "n":
            self.match_named(schema, d[1], where)
        else:
            raise ValueError(d)

    def match_named(self, schema, t, where):
        if "$ref" not in schema:
            self.err(where, "%s described as %s instead of a reference" % (t.key, short(schema)))
            return
        comp, name = own(schema, self.doc)
        if comp is None:
            self.err(where, "%s refers to %s, which does not exist" % (t.key, name))
            return
        if t in self.by_type and self.by_type[t] != name:
            self.id_errors.append("%s: " % where + "%s is described by both %s and %s" % (t.key, self.by_type[t], name))
        if name in self.by_comp and self.by_comp[name] is not t:
            self.id_errors.append("%s: " % where + "component %s describes both %s and %s" % (name, self.by_comp[name].key, t.key))
        self.by_type.setdefault(t, name)
        self.by_comp.setdefault(name, t)
        if name.split(".")[-1] != t.name:
            self.err(where, "component %s does not carry the name of %s" % (name, t.key))
        if t in self.done:
            return
        self.done.add(t)
        if getattr(self, "shallow", False):
            return
        self.depth += 1
        self.component(comp, t, t.key)
        self.depth -= 1

    def component(self, comp, t, where):
        mapped = self.mappings.get(t.key)
        if mapped is not None:
            got = {k: v for k, v in comp.items() if k != "description"}
            if got != mapped:
                self.err(where, "mapped to %s, described as %s" % (mapped, short(comp)))
        elif t.kind == "special":
            got = {k: v for k, v in comp.items() if k != "description"}
            if got != t.schema:
                self.err(where, "described as %s instead of %s" % (short(comp), t.schema))
        elif t.kind == "struct":
            exp = expected_props(t, self.binding)
            got = props(comp, self.doc)
            if exp is None:
                return
            if set(exp) != set(got):
                self.err(where, "properties %s, the %s encoding has %s (missing %s, extra %s)" % (
                    sorted(got), self.binding, sorted(exp), sorted(set(exp) - set(got)), sorted(set(got) - set(exp))))
            for k in sorted(set(exp) & set(got)):
                self.match(got[k], exp[k], where + "." + k)
            if comp.get("type") != "object" and "allOf" not in comp:
                self.err(where, "struct described as %s" % short(comp))
        elif t.kind in ("enum", "basic"):
            ty, fm = TABLE[t.under[1]]
            want = [const_value(v, t.under[1]) for _, v in t.consts]
            if comp.get("type") != ty or comp.get("format") != fm or extra(comp, ("type", "format", "enum", "description")):
                self.err(where, "%s described as %s" % (t.under[1], short(comp)))
            if sorted(map(numeric, comp.get("enum") or [])) != sorted(map(numeric, want)) or any(
                    isinstance(x, str) != (t.under[1] == "string") for x in comp.get("enum") or []):
                self.err(where, "constants %s, enum %s" % (want, comp.get("enum")))
        elif t.kind == "iface":
            if extra(comp, ("description",)):
                self.err(where, "interface described as %s" % short(comp))
        else:
            c = {k: v for k, v in comp.items() if k != "description"}
            self.match(c, desc(t.under), where)
        if t.kind != "special" and t is not GINH and comp.get("description", "") != t.doc.strip():
            self.doc_errors.append("%s: doc comment %r, description %r" % (where, t.doc, comp.get("description")))


def numeric(x):
    """Numbers are equal however they are written."""
    return (1, x) if isinstance(x, (int, float)) and not isinstance(x, bool) else (2, str(x))


def const_value(lit, base):
    if base == "string":
        return json.loads(lit)
    if base.startswith("float"):
        return float(lit)
    return int(lit)


def extra(schema, allowed):
    return [k for k in schema if k not in allowed]


def short(x):
    s = json.dumps(x, sort_keys=True)
    return s if len(s) < 300 else s[:300] + "..."


METHODS = ("get", "put", "post", "delete", "options", "head", "patch", "trace")


def operations(doc):
    for p, item in (doc.get("paths") or {}).items():
        for m in METHODS:
            if m in item and item[m] is not None:
                yield p, m, item[m]


def template(path):
    """The OpenAPI template of a gin path."""
    out = []
    for seg in path.split("/"):
        i = min([x for x in (seg.find(":"), seg.find("*")) if x >= 0], default=-1)
        if i >= 0 and len(seg) > i + 1:
            seg = seg[:i] + "{" + seg[i + 1:] + ("*" if seg[i] == "*" else "") + "}"
        out.append(seg)
    return "/".join(out)


def path_params(path):
    out = []
    for seg in path.split("/"):
        i = min([x for x in (seg.find(":"), seg.find("*")) if x >= 0], default=-1)
        if i >= 0 and len(seg) > i + 1:
            out.append((seg[i + 1:], seg[i] == ":"))
    return out


def refs(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "$ref" and isinstance(v, str):
                yield v
            else:
                yield from refs(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs(v)


def validity(doc):
    """Self-containedness and the OpenAPI 3.0 rules a consumer relies on."""
    errs = []
    if not str(doc.get("openapi", "")).startswith("3."):
        errs.append("openapi version %r" % doc.get("openapi"))
    info = doc.get("info") or {}
    for k in ("title", "version"):
        if k not in info:
            errs.append("info has no %s" % k)
    if not isinstance(doc.get("paths", {}), dict):
        errs.append("paths is %r" % doc.get("paths"))
    schemas = (doc.get("components") or {}).get("schemas") or {}
    for r in set(refs(doc)):
        if not r.startswith("#/components/schemas/") or r[len("#/components/schemas/"):] not in schemas:
            errs.append("dangling reference %s" % r)
    for n in schemas:
        if not re.fullmatch(r"[A-Za-z0-9._-]+", n):
            errs.append("component name %r" % n)
        elif n.startswith(".") or n.endswith(".") or ".." in n:
            errs.append("component name %r has an empty part" % n)
    for n, s in schemas.items():
        schema_valid(s, "component " + n, errs)
    for p, item in (doc.get("paths") or {}).items():
        if not p.startswith("/"):
            errs.append("path %r does not start with /" % p)
        for k in item:
            if k not in METHODS and k not in ("parameters", "servers", "summary", "description", "$ref"):
                errs.append("path %s has unknown key %s" % (p, k))
    for p, m, op in operations(doc):
        w = "%s %s" % (m.upper(), p)
        seen = set()
        inpath = set(x[:-1] if x.endswith("*") else x for x in re.findall(r"\{([^}]*)\}", p))
        declared = set()
        for prm in op.get("parameters") or []:
            n, i = prm.get("name"), prm.get("in")
            if not n:
                errs.append("%s has a parameter without a name: %s" % (w, short(prm)))
            if i not in ("query", "header", "path", "cookie"):
                errs.append("%s has parameter %r in %r" % (w, n, i))
            if (n, i) in seen:
                errs.append("%s lists parameter %r in %r twice" % (w, n, i))
            seen.add((n, i))
            if i == "path":
                declared.add(n)
            if "schema" not in prm:
                errs.append("%s parameter %r has no schema" % (w, n))
            else:
                schema_valid(prm["schema"], w + " parameter %s" % n, errs)
        if inpath != declared:
            errs.append("%s has path parameters %s but declares %s" % (w, sorted(inpath), sorted(declared)))
        if "responses" not in op or not isinstance(op["responses"], dict):
            errs.append("%s has no responses" % w)
        for code, r in (op.get("responses") or {}).items():
            if not re.fullmatch(r"[1-5][0-9][0-9]|default", code):
                errs.append("%s has response code %r" % (w, code))
            if "description" not in r:
                errs.append("%s response %s has no description" % (w, code))
            for ct, mt in (r.get("content") or {}).items():
                if "/" not in ct:
                    errs.append("%s response %s has content type %r" % (w, code, ct))
                if "schema" in mt:
                    schema_valid(mt["schema"], "%s response %s %s" % (w, code, ct), errs)
            for hn, h in (r.get("headers") or {}).items():
                if not hn:
                    errs.append("%s response %s has a header without a name" % (w, code))
        rb = op.get("requestBody")
        if rb is not None:
            if not rb.get("content"):
                errs.append("%s has a request body without content" % w)
            for ct, mt in (rb.get("content") or {}).items():
                if "/" not in ct:
                    errs.append("%s body has content type %r" % (w, ct))
                if "schema" in mt:
                    schema_valid(mt["schema"], "%s body %s" % (w, ct), errs)
    return errs


def schema_valid(s, w, errs, depth=0):
    if not isinstance(s, dict) or depth > 30:
        errs.append("%s: schema is %r" % (w, s))
        return
    if "type" in s and s["type"] not in ("string", "integer", "number", "boolean", "array", "object"):
        errs.append("%s: type %r" % (w, s["type"]))
    if "type" in s and "$ref" in s:
        errs.append("%s: both a type and a reference" % w)
    if s.get("type") == "array" and "items" not in s:
        errs.append("%s: array without items" % w)
    for k in ("allOf", "anyOf", "oneOf"):
        if k in s and not s[k]:
            errs.append("%s: empty %s" % (w, k))
        for x in s.get(k) or []:
            schema_valid(x, w + "/" + k, errs, depth + 1)
    for n, x in (s.get("properties") or {}).items():
        if n == "":
            errs.append("%s: property without a name" % w)
        schema_valid(x, w + "." + n, errs, depth + 1)
    for k in ("items", "additionalProperties", "not"):
        if isinstance(s.get(k), dict):
            schema_valid(s[k], w + "/" + k, errs, depth + 1)


JSONTYPES = {"string": str, "boolean": bool, "array": list, "object": dict}


def conforms(v, schema, doc, where, errs, two_way=0, depth=0, enums=True):
    """Checks an observed JSON value against a schema; two_way levels deep, every documented property has to be there as well."""
    if len(errs) > 20 or depth > 25:
        return
    if schema is None:
        errs.append("%s: no schema" % where)
        return
    if "$ref" in schema:
        s2, name = own(schema, doc)
        if s2 is None:
            errs.append("%s: %s does not exist" % (where, name))
            return
        return conforms(v, s2, doc, where, errs, two_way, depth + 1, enums)
    if v is None:
        return
    for k in ("anyOf", "oneOf"):
        if schema.get(k):
            for alt in schema[k]:
                e2 = []
                conforms(v, alt, doc, where, e2, two_way, depth + 1, enums)
                if not e2:
                    return
            errs.append("%s: %s fits no alternative of %s" % (where, short(v), short(schema)))
            return
    if schema.get("allOf"):
        if not isinstance(v, dict):
            errs.append("%s: %s is documented as an object" % (where, short(v)))
            return
        ps = props(schema, doc)
        obj(v, ps, None, doc, where, errs, two_way, depth, enums)
        return
    ty = schema.get("type")
    if ty is None:
        return
    if ty == "integer":
        ok = isinstance(v, (int, float)) and not isinstance(v, bool) and v == int(v)
    elif ty == "number":
        ok = isinstance(v, (int, float)) and not isinstance(v, bool)
    else:
        ok = isinstance(v, JSONTYPES[ty])
    if not ok:
        errs.append("%s: %s is documented as %s" % (where, short(v), ty))
        return
    if enums and schema.get("enum") and v not in schema["enum"]:
        errs.append("%s: %r is not one of %s" % (where, v, schema["enum"]))
    if ty == "array":
        if "maxItems" in schema and len(v) > schema["maxItems"]:
            errs.append("%s: %d items, documented at most %d" % (where, len(v), schema["maxItems"]))
        for i, x in enumerate(v):
            conforms(x, schema.get("items"), doc, "%s[%d]" % (where, i), errs, two_way - 1, depth + 1, enums)
    if ty == "object" and (schema.get("properties") or schema.get("additionalProperties") is not None or two_way):
        obj(v, schema.get("properties") or {}, schema.get("additionalProperties"), doc, where, errs, two_way, depth, enums)


def obj(v, ps, ap, doc, where, errs, two_way, depth, enums):
    for k, x in v.items():
        if k in ps:
            conforms(x, ps[k], doc, where + "." + k, errs, two_way - 1, depth + 1, enums)
        elif isinstance(ap, dict):
            conforms(x, ap, doc, where + "." + k, errs, two_way - 1, depth + 1, enums)
        else:
            errs.append("%s: property %r is not documented (%s)" % (where, k, sorted(ps)))
    if two_way > 0 and not isinstance(ap, dict):
        for k in ps:
            if k not in v:
                errs.append("%s: documented property %r never appears in the encoding %s" % (where, k, short(v)))


def resolve(x, doc, stack=()):
    """Replaces references by what they refer to, so that documents whose components have other names can be compared."""
    if isinstance(x, dict):
        if "$ref" in x:
            c, name = own(x, doc)
            if name in stack:
                return {"$rec": len(stack) - stack.index(name)}
            return {"$comp": name.split(".")[-1], "is": resolve(c, doc, stack + (name,))}
        return {k: resolve(v, doc, stack) for k, v in x.items()}
    if isinstance(x, list):
        return [resolve(v, doc, stack) for v in x]
    return x
