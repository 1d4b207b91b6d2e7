"""Abstract values of arbitrary shape, drawn by type with a fixed seed: what the enumerated scenarios leave out is the
combination of things.  Strings are opaque atoms (some shared, so that equalities can be assumed) or odd constants.
`doc` states the OpenAPI 3.0.3 layout of such a value, independently of how it is serialized."""
import random
from interp import *
from world import *

ODD = ("", "a b", "{x}", "a/b", "~1", "é", "$ref", "x", "default", "description", "A", "type")
CODES = (200, 404, 100, 500, 599, 204, 418, 299, 600, 65535, 0)


class Rand:
    def __init__(self, W, seed, links=("T0", "T1"), depth=4, tag="", odd=0.12, top=None, rich=False):
        self.W, self.r, self.links, self.depth, self.tag, self.odd = W, random.Random(seed), list(links), depth, tag, odd
        self.n = 0
        self.rich = rich  # mostly nested schemas, with most optional members present
        self.top = top  # size of the outermost collections

    def s(self, hint="s"):
        r = self.r.random()
        if r < self.odd:
            return Str([self.r.choice(ODD)])
        if r < 0.45:
            return self.W.S("%s%s%d" % (self.tag, hint, self.r.randrange(3)))
        self.n += 1
        return self.W.S("%s%s.%d" % (self.tag, hint, self.n))

    def size(self, d):
        if self.top is not None and d >= self.depth - 1:
            return self.top
        return self.r.choice((0, 0, 1) if d <= 0 else (1, 2, 2, 3) if self.rich else (0, 1, 1, 2, 3))

    def keys(self, t, n, hint):
        W, I = self.W, self.W.I
        ty = I.ty(t)
        if ty["k"] == "int":
            return self.r.sample(CODES, min(n, len(CODES)))
        if ty["k"] == "adt" and ty["ak"] == "enum" and ty["v"]:
            return [Agg(t, i, []) for i in sorted(self.r.sample(range(len(ty["v"])), min(n, len(ty["v"]))))]
        out = []
        for i in range(n):
            k = W.S("%s%sk%d" % (self.tag, hint, i)) if self.r.random() > self.odd else Str([ODD[(i * 5 + 1) % len(ODD)] + ("" if n <= len(ODD) else str(i))])
            if norm(k) not in [norm(x) for x in out]:
                out.append(k)
        self.r.shuffle(out)
        return out

    def model(self, d=None):
        return self.value(self.W.tid("Model"), self.depth if d is None else d)

    def of(self, path, d=None):
        return self.value(self.W.tid(path), self.depth if d is None else d)

    def value(self, t, d, hint="s"):
        W, I, R = self.W, self.W.I, self.r
        ty = I.ty(t)
        k, p = ty["k"], ty.get("p", "")
        if k == "bool":
            return R.randrange(2)
        if k == "int":
            return R.choice((0, 1, 2, 7, 200))
        if p == "alloc::string::String":
            return StringV(self.s(hint))
        if k == "ref" and I.ty(ty["t"])["k"] == "str":
            return self.s(hint)
        if p == "core::option::Option":
            return I.some(t, self.value(ty["a"][0], d, hint)) if R.random() < (0.85 if self.rich else 0.5) and d > -2 else I.none(t)
        if p == "alloc::boxed::Box":
            return BoxV(self.value(ty["a"][0], d, hint))
        if p == "alloc::vec::Vec":
            return VecV([self.value(ty["a"][0], d - 1, hint) for _ in range(self.size(d))])
        if p.endswith("BTreeMap"):
            return MapV(hash=False, e=[[W.coerce(x, ty["a"][0]), self.value(ty["a"][1], d - 1, hint)] for x in self.keys(ty["a"][0], self.size(d), hint)])
        if k == "tuple":
            return Agg(t, 0, [self.value(x, d, hint) for x in ty["a"]])
        if k == "adt" and p.endswith("::ModelReference"):
            c = R.random()
            if d <= 0 or c < (0.15 if self.rich else 0.4):
                return W.en("ModelReference", "Link", W.S(R.choice(self.links))) if self.links and R.random() < 0.75 else W.en("ModelReference", "Any")
            if c < (0.2 if self.rich else 0.5):
                return W.en("ModelReference", "Any")
            return W.en("ModelReference", "Inline", self.value(W.tid("Model"), d - 1))
        if k == "adt" and p.endswith("::Opg"):
            df = W.call("default_opg")
            return Agg(t, 0, [df.f[i] if n == "openapi" else self.value(ft, d - 1, n) for i, (n, ft) in enumerate(ty["v"][0]["f"])])
        if k == "adt" and ty["v"]:
            vi = R.randrange(len(ty["v"]))
            if d <= 0 and p.endswith("::ModelTypeDescription"):
                vi = R.choice([i for i, v in enumerate(ty["v"]) if v["n"] not in ("Array", "Object")])
            if self.rich and R.random() < 0.7:
                if p.endswith("::ModelTypeDescription") and d > 0:
                    vi = R.choice([i for i, v in enumerate(ty["v"]) if v["n"] in ("Array", "Object")])
                elif p.endswith("::ModelData"):
                    vi = R.choice([i for i, v in enumerate(ty["v"]) if v["n"] != "AllOf"] if d > 0 else [0])
            return Agg(t, vi, [self.value(ft, d, n if not n.isdigit() else hint) for n, ft in ty["v"][vi]["f"]])
        raise Undecided("cannot draw a value of %s" % (p or k))


# ---------- the layout OpenAPI 3.0.3 gives a document value, from its term
def fields(t, name, known):
    if not isinstance(t, D) or set(t.f) - set(known):
        raise Undecided("members of %s" % name)
    return t


def opt(j, key, v):
    if v is not None:
        j[key] = v
    return j


def truth(v):
    if not isinstance(v, (bool, int)):
        raise Undecided("flag %r" % (v,))
    return bool(v)


def j_ref(t):
    if t.n == "Link":
        return {"$ref": Str(["#/components/schemas/", to_str2(t.a[0])])}
    return {} if t.n == "Any" else j_model(t.a[0])


def to_str2(x):
    return x if isinstance(x, Str) else Str([x])


def j_model(t):
    fields(t, "Model", ("description", "data"))
    j = opt({}, "description", t["description"])
    d = t["data"]
    if d.n != "Single":
        key = {"OneOf": "oneOf", "AllOf": "allOf", "AnyOf": "anyOf"}[d.n]
        (l,) = d.a[0].f.values()
        j[key] = [j_ref(x) for x in l]
        return j
    mt = fields(d.a[0], "ModelType", ("nullable", "type_description"))
    if truth(mt["nullable"]):
        j["nullable"] = True
    td = mt["type_description"]
    j["type"] = td.n.lower()
    if td.n == "String":
        x = fields(td.a[0], "ModelString", ("variants", "data"))
        opt(j, "enum", x["variants"])
        simple = x["data"]
    elif td.n in ("Number", "Integer"):
        simple = td.a[0]
    elif td.n == "Array":
        j["items"] = j_ref(fields(td.a[0], "ModelArray", ("items",))["items"])
        return j
    elif td.n == "Object":
        o = fields(td.a[0], "ModelObject", ("properties", "additional_properties", "required"))
        if len(o["properties"]):
            j["properties"] = {k: j_ref(v) for k, v in o["properties"].items}
        if o["additional_properties"] is not None:
            j["additionalProperties"] = j_ref(o["additional_properties"])
        if o["required"]:
            j["required"] = o["required"]
        return j
    else:
        return j
    fields(simple, "ModelSimple", ("format", "example"))
    opt(j, "format", simple["format"])
    return opt(j, "example", simple["example"])


def j_security(t):
    if t.n == "Http":
        h = t.a[0]
        f = h.a[0].f if h.a else {}
        j = {"type": "http", "scheme": h.n.lower()}
        opt(j, "description", f.get("description"))
        return opt(j, "bearerFormat", f.get("format"))
    x = fields(t.a[0], "ApiKey", ("parameter_in", "name", "description"))
    return opt({"type": "apiKey", "in": x["parameter_in"].n.lower(), "name": x["name"]}, "description", x["description"])


def j_param(name, t):
    fields(t, "OperationParameter", ("description", "parameter_in", "required", "deprecated", "schema"))
    j = opt({"name": name, "in": t["parameter_in"].n.lower()}, "description", t["description"])
    for k in ("required", "deprecated"):
        if truth(t[k]):
            j[k] = True
    if t["schema"] is not None:
        j["schema"] = j_ref(t["schema"])
    return j


def content(s):
    return {"application/json": {"schema": j_ref(s)}}


def j_operation(t):
    fields(t, "Operation", ("tags", "summary", "operation_id", "description", "deprecated", "security", "request_body", "responses", "parameters", "callbacks"))
    j = {"responses": {}}
    if t["tags"]:
        j["tags"] = t["tags"]
    opt(j, "summary", t["summary"])
    opt(j, "operationId", t["operation_id"])
    opt(j, "description", t["description"])
    if truth(t["deprecated"]):
        j["deprecated"] = True
    if t["security"]:
        j["security"] = [{k: v for k, v in m.items} for m in t["security"]]
    b = t["request_body"]
    if b is not None:
        fields(b, "RequestBody", ("description", "required", "schema"))
        x = opt({"content": content(b["schema"])}, "description", b["description"])
        if truth(b["required"]):
            x["required"] = True
        j["requestBody"] = x
    for k, v in t["responses"].items:
        fields(v, "Response", ("description", "schema"))
        j["responses"][k] = opt({"description": v["description"]}, "content", None if v["schema"] is None else content(v["schema"]))
    if len(t["parameters"]):
        j["parameters"] = [j_param(k, v) for k, v in t["parameters"].items]
    if len(t["callbacks"]):
        j["callbacks"] = {k: j_paths(v["paths"]) for k, v in t["callbacks"].items}
    return j


def j_path(t):
    out = []
    for e in t.a[0]:
        out += ["/"] + ([to_str2(e.a[0])] if e.n == "Path" else ["{", to_str2(e.a[0]), "}"])
    return Str(out)


def j_path_value(t):
    fields(t, "PathValue", ("summary", "description", "operations", "parameters"))
    j = opt(opt({}, "summary", t["summary"]), "description", t["description"])
    for k, v in t["operations"].items:
        j[k.n.lower()] = j_operation(v)
    if len(t["parameters"]):
        j["parameters"] = [j_param(k, v) for k, v in t["parameters"].items]
    return j


def j_paths(l):
    from openapi import OD
    ks = [j_path(p) for p, _ in l]
    if len(set(norm(k) for k in ks)) != len(ks):
        raise Skip()  # the same path twice: not a document
    return OD([(k, j_path_value(v)) for k, (_, v) in zip(ks, l)]) if l else {}


class Skip(Exception):
    pass


def j_components(t):
    fields(t, "Components", ("schemas", "security_schemes"))
    j = {}
    if len(t["schemas"]):
        j["schemas"] = {k: j_model(v) for k, v in t["schemas"].items}
    if len(t["security_schemes"]):
        j["securitySchemes"] = {k: j_security(v) for k, v in t["security_schemes"].items}
    return j


def j_opg(t):
    fields(t, "Opg", ("openapi", "info", "tags", "servers", "paths", "components"))
    i = fields(t["info"], "Info", ("title", "description", "version"))
    j = {"openapi": "3.0.3", "info": opt({"title": i["title"], "version": i["version"]}, "description", i["description"]),
         "paths": j_paths(t["paths"]), "components": j_components(t["components"])}
    if len(t["tags"]):
        j["tags"] = [opt({"name": k}, "description", v["description"]) for k, v in t["tags"].items]
    if t["servers"]:
        j["servers"] = [opt({"url": x["url"]}, "description", x["description"]) for x in t["servers"]]
    return j


DOCS = {"Model": ("ser_model", j_model), "SecurityScheme": ("ser_security_scheme", j_security), "Operation": ("ser_operation", j_operation),
        "PathValue": ("ser_path_value", j_path_value), "Components": ("ser_components", j_components), "Opg": ("ser_opg", j_opg)}


# ---------- references of a term
def dangling(components):
    """names linked from within registered schemas that are not registered"""
    import core_checks
    names = [norm(k) for k in components["schemas"].keys()]
    return [x for x in core_checks.links(components["schemas"], []) if x not in names]
