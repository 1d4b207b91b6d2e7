"""Independent statement of the OpenAPI 3.0.3 layout: pairs (abstract document value, expected JSON)."""
import itertools
from interp import *
from world import *


class Pair:
    """v: zero-argument builder of the abstract value; j: expected JSON (dict / list / Str / bool / None)"""

    def __init__(self, v, j):
        self.v, self.j = v, j


def jdiff(got, want, path):
    got, want = norm(got), norm(want)
    if got is Top:
        raise Undecided("⊤ at %s" % path)
    if isinstance(want, OD):
        r = jdiff(got, dict(want.l), path)
        if r:
            return r
        if [norm(k) for k in got.keys()] != [norm(k) for k, _ in want.l]:
            return "%s: key order %s, expected %s" % (path, got.keys(), [k for k, _ in want.l])
        return None
    if isinstance(want, dict):
        if not isinstance(got, M):
            return "%s: %r, expected an object %r" % (path, got, want)
        ks = [norm(k) for k in got.keys()]
        if len(set(ks)) != len(ks):
            return "%s: duplicate key in %r" % (path, ks)
        w = {norm(k): v for k, v in want.items()}
        g = {norm(k): v for k, v in got.items}
        miss = [k for k in w if k not in g]
        extra = [k for k in g if k not in w]
        if miss:
            return "%s: key %r is missing" % (path, miss[0])
        if extra:
            return "%s: unexpected key %r (value %r)" % (path, extra[0], g[extra[0]])
        for k in w:
            r = jdiff(g[k], w[k], "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return "%s: %r, expected %r" % (path, got, want)
        for i, (a, b) in enumerate(zip(got, want)):
            r = jdiff(a, b, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if want is None or got is None:
        return None if want is got else "%s: %r, expected %r" % (path, got, want)
    if isinstance(want, bool):
        return None if isinstance(got, (bool, int)) and bool(got) == want else "%s: %r, expected %r" % (path, got, want)
    if isinstance(got, (M, list)):
        return "%s: %r, expected %r" % (path, got, want)
    return None if got == want else "%s: %r, expected %r" % (path, got, want)


class OD:
    """object whose key order is part of the contract"""

    def __init__(self, l):
        self.l = l


class Gen:
    def __init__(self, W):
        self.W = W
        self.n = 0

    def a(self, n):
        return self.W.S(n)

    # -- references and schemas
    def ref(self, kind, i="0"):
        W = self.W
        if kind == "link":
            return W.en("ModelReference", "Link", self.a("T" + i)), {"$ref": Str(["#/components/schemas/", self.a("T" + i)])}
        if kind == "any":
            return W.en("ModelReference", "Any"), {}
        m, j = self.model("Integer", 1, 0, False, i)
        return W.en("ModelReference", "Inline", m), j

    def model(self, kind, desc, full, nullable, i="0"):
        W = self.W
        j = {}
        d = None
        if desc:
            d = self.a("md" + i)
            j["description"] = d
        if kind in ("OneOf", "AllOf", "AnyOf"):
            fld, key = {"OneOf": ("one_of", "oneOf"), "AllOf": ("all_of", "allOf"), "AnyOf": ("any_of", "anyOf")}[kind]
            rs = [self.ref(k, i + str(x)) for x, k in enumerate(("link", "any", "inline"))] if full else []
            j[key] = [r[1] for r in rs]
            data = W.en("ModelData", kind, W.mk("Model" + kind, **{fld: [r[0] for r in rs]}))
            return W.mk("Model", description=d, data=data), j
        if nullable:
            j["nullable"] = True
        td, tj = self.td(kind, full, i)
        j.update(tj)
        return W.mk("Model", description=d, data=W.en("ModelData", "Single", W.mk("ModelType", nullable=nullable, type_description=td))), j

    def td(self, kind, full, i="0"):
        """full: bit mask of optional members"""
        W = self.W
        j = {"type": {"String": "string", "Number": "number", "Integer": "integer", "Boolean": "boolean", "Array": "array", "Object": "object"}[kind]}
        if kind in ("String", "Number", "Integer"):
            f = e = v = None
            if full & 1:
                f = j["format"] = self.a("fmt" + i)
            if full & 2:
                e = j["example"] = self.a("ex" + i)
            s = W.mk("ModelSimple", format=f, example=e)
            if kind == "String":
                if full & 4:
                    v = j["enum"] = [self.a("e0" + i), self.a("e1" + i)]
                if full & 8:
                    v = j["enum"] = []
                return W.en("ModelTypeDescription", "String", W.mk("ModelString", variants=v, data=s)), j
            return W.en("ModelTypeDescription", kind, s), j
        if kind == "Boolean":
            return W.en("ModelTypeDescription", "Boolean"), j
        if kind == "Array":
            r, rj = self.ref(("link", "any", "inline")[full % 3], i + "i")
            j["items"] = rj
            return W.en("ModelTypeDescription", "Array", W.mk("ModelArray", items=r)), j
        props, addl, req = [], None, []
        if full & 1:
            rs = [(self.a("pn%s%d" % (i, x)), self.ref(k, i + str(x))) for x, k in enumerate(("link", "any", "inline"))]
            props = [(n, r[0]) for n, r in rs]
            j["properties"] = {n: r[1] for n, r in rs}
        if full & 2:
            r = self.ref(("link", "any", "inline")[(full >> 3) % 3], i + "a")
            addl = r[0]
            j["additionalProperties"] = r[1]
        if full & 4:
            req = [self.a("pn%s0" % i), self.a("pn%s2" % i)]
            j["required"] = list(req)
        return W.en("ModelTypeDescription", "Object", W.mk("ModelObject", properties=props, additional_properties=addl, required=req)), j

    # -- security
    def http(self, kind, full):
        W = self.W
        j = {"scheme": kind.lower()}
        d = f = None
        if full & 1:
            d = j["description"] = self.a("sd")
        if kind == "Bearer":
            if full & 2:
                f = j["bearerFormat"] = self.a("bf")
            return W.en("HttpSecurityScheme", kind, format=f, description=d), j
        return W.en("HttpSecurityScheme", kind, description=d), j

    def key(self, where, full):
        W = self.W
        j = {"in": where.lower(), "name": self.a("kn")}
        d = None
        if full:
            d = j["description"] = self.a("kd")
        return W.mk("ApiKeySecurityScheme", parameter_in=W.en("ParameterIn", where), name=self.a("kn"), description=d), j

    def security(self, i):
        W = self.W
        if i % 2 == 0:
            v, j = self.http("Basic" if i % 4 == 0 else "Bearer", i % 4)
            return W.en("SecurityScheme", "Http", v), dict(j, type="http")
        v, j = self.key(("Query", "Header", "Cookie", "Path")[(i // 2) % 4], i & 4)
        return W.en("SecurityScheme", "ApiKey", v), dict(j, type="apiKey")

    # -- operations
    def param(self, where, bits, i="0"):
        W = self.W
        j = {"in": where.lower()}
        d = s = None
        if bits & 1:
            d = j["description"] = self.a("pd" + i)
        if bits & 2:
            j["required"] = True
        if bits & 4:
            j["deprecated"] = True
        if bits & 8:
            s, j["schema"] = self.ref(("link", "inline", "any")[bits % 3], "p" + i)
        return W.mk("OperationParameter", description=d, parameter_in=W.en("ParameterIn", where), required=bool(bits & 2), deprecated=bool(bits & 4), schema=s), j

    def params(self, n, base=0):
        """parameters keyed by concrete names (sorted order is part of the contract)"""
        out, jj = [], []
        for k in range(n):
            nm = "par%d" % k
            v, j = self.param(("Query", "Header", "Path", "Cookie")[(k + base) % 4], (5 * k + base) % 16, str(k))
            out.append((nm, v))
            jj.append(dict(j, name=nm))
        return list(reversed(out)), jj

    def body(self, bits):
        W = self.W
        j = {}
        d = None
        if bits & 1:
            d = j["description"] = self.a("bd")
        if bits & 2:
            j["required"] = True
        s, sj = self.ref(("link", "inline", "any")[(bits >> 2) % 3], "b")
        j["content"] = {"application/json": {"schema": sj}}
        return W.mk("RequestBody", description=d, required=bool(bits & 2), schema=s), j

    def response(self, bits, i="0"):
        W = self.W
        j = {"description": self.a("rd" + i)}
        s = None
        if bits & 1:
            s, sj = self.ref(("link", "inline", "any")[(bits >> 1) % 3], "r" + i)
            j["content"] = {"application/json": {"schema": sj}}
        return W.mk("Response", description=self.a("rd" + i), schema=s), j

    OPF = ("tags", "summary", "operation_id", "description", "deprecated", "security", "request_body", "responses", "parameters", "callbacks")

    def operation(self, on, depth=0):
        """on: set of populated members"""
        W = self.W
        j = {"responses": {}}
        f = dict(tags=[], summary=None, operation_id=None, description=None, deprecated=False, security=[], request_body=None, responses=[], parameters=[], callbacks=[])
        if "tags" in on:
            f["tags"] = j["tags"] = [self.a("tg0"), self.a("tg1")]
        if "summary" in on:
            f["summary"] = j["summary"] = self.a("osum")
        if "operation_id" in on:
            f["operation_id"] = j["operationId"] = self.a("oid")
        if "description" in on:
            f["description"] = j["description"] = self.a("odesc")
        if "deprecated" in on:
            f["deprecated"] = j["deprecated"] = True
        if "security" in on:
            f["security"] = [[(self.a("s0"), [self.a("role0"), self.a("role1")])], [(self.a("s1"), [])], []]
            j["security"] = [{self.a("s0"): [self.a("role0"), self.a("role1")]}, {self.a("s1"): []}, {}]
        if "request_body" in on:
            f["request_body"], j["requestBody"] = self.body(3)
        if "responses" in on:
            a, aj = self.response(1, "a")
            b, bj = self.response(0, "b")
            f["responses"] = [(200, a), (404, b)]
            j["responses"] = {200: aj, 404: bj}
        if "parameters" in on:
            f["parameters"], j["parameters"] = self.params(3)
        if "callbacks" in on:
            cb, cj = self.callback(2 if depth == 0 else 1, depth + 1)
            c0, c0j = self.callback(0, depth + 1)
            f["callbacks"] = [(self.a("cb0"), cb), (self.a("cb1"), c0)]
            j["callbacks"] = {self.a("cb0"): cj, self.a("cb1"): c0j}
        return W.mk("Operation", **f), j

    def callback(self, n, depth=0):
        W = self.W
        ps = []
        jj = []
        for k in range(n):
            p, pj = self.path([("Path", "z%d" % (n - k)), ("Parameter", self.a("cv"))])
            v, vj = self.path_value({"summary", "operations"} if depth < 2 else set(), depth + 1, i="c")
            ps.append((p, v))
            jj.append((pj, vj))
        return W.mk("CallbackObject", paths=ps), OD(jj) if n else {}

    def path(self, els):
        W = self.W
        vs = []
        s = []
        for k, n in els:
            vs.append(W.en("PathElement", k, n if isinstance(n, Str) else Str(n)))
            s += ["/"] + ([n] if k == "Path" else ["{", n, "}"])
        t = W.tid("Path")
        return W.coerce(vs, t), Str(s)

    METHODS = ("GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE")

    def path_value(self, on, depth=0, i="", methods=("GET", "POST")):
        W = self.W
        f = dict(summary=None, description=None, operations=[], parameters=[])
        j = {}
        if "summary" in on:
            f["summary"] = j["summary"] = self.a("psum" + i)
        if "description" in on:
            f["description"] = j["description"] = self.a("pdesc" + i)
        if "operations" in on:
            ops = []
            for k, m in enumerate(methods):
                o, oj = self.operation({self.OPF[k % len(self.OPF)], "summary"} - {"callbacks"}, depth + 1)
                ops.append((W.en("HttpMethod", m), o))
                j[m.lower()] = oj
            f["operations"] = ops
        if "parameters" in on:
            f["parameters"], j["parameters"] = self.params(2, 1)
        return W.mk("PathValue", **f), j

    def info(self, full):
        j = {"title": self.a("title"), "version": self.a("ver")}
        if full:
            j["description"] = self.a("idesc")
        return self.W.mk("Info", title=self.a("title"), description=j.get("description"), version=self.a("ver")), j

    def components(self, bits):
        W = self.W
        j = {}
        sch, sec = [], []
        if bits & 1:
            es = [self.model(k, 1, 1, False, k) for k in ("String", "Object", "OneOf")]
            sch = [(self.a("sn%d" % i), e[0]) for i, e in enumerate(es)]
            j["schemas"] = {self.a("sn%d" % i): e[1] for i, e in enumerate(es)}
        if bits & 2:
            es = [self.security(i) for i in range(3)]
            sec = [(self.a("sc%d" % i), e[0]) for i, e in enumerate(es)]
            j["securitySchemes"] = {self.a("sc%d" % i): e[1] for i, e in enumerate(es)}
        return W.mk("Components", schemas=sch, security_schemes=sec), j

    def opg(self, on):
        W = self.W
        j = {"openapi": "3.0.3"}
        inf, j["info"] = self.info("info" in on)
        tags, servers, paths = [], [], []
        if "tags" in on:
            tags = [("tb", W.mk("Tag", description=self.a("td"))), ("ta", W.mk("Tag", description=None))]
            j["tags"] = [{"name": "ta"}, {"name": "tb", "description": self.a("td")}]
        if "servers" in on:
            servers = [W.mk("Server", url=self.a("url0"), description=self.a("sd0")), W.mk("Server", url=self.a("url1"), description=None)]
            j["servers"] = [{"url": self.a("url0"), "description": self.a("sd0")}, {"url": self.a("url1")}]
        if "paths" in on:
            l = []
            for els, o in (([("Path", "zz"), ("Parameter", self.a("v"))], {"summary", "operations", "parameters"}), ([("Path", "aa")], {"description"}), ([("Path", "mm"), ("Path", "q")], set())):
                p, pj = self.path(els)
                v, vj = self.path_value(o)
                paths.append((p, v))
                l.append((pj, vj))
            j["paths"] = OD(l)
        else:
            j["paths"] = {}
        comp, j["components"] = self.components(3 if "components" in on else 0)
        ver = self.W.call("default_opg").f[[x[0] for x in W.I.ty(W.tid("Opg"))["v"][0]["f"]].index("openapi")]
        return W.mk("Opg", openapi=ver, info=inf, tags=tags, servers=servers, paths=paths, components=comp), j


def subsets(xs, thorough):
    xs = list(xs)
    yield set()
    yield set(xs)
    for x in xs:
        yield {x}
        yield set(xs) - {x}
    if thorough:
        for a, b in itertools.combinations(xs, 2):
            yield {a, b}


def scenarios(W, thorough, brief=False):
    G = Gen(W)

    def sc(key, fn, g):
        return (key, fn, lambda: g()[0], lambda: g()[1])
    kinds = ("String", "Number", "Integer", "Boolean", "Array", "Object", "OneOf", "AllOf", "AnyOf")
    full = {"String": range(9), "Number": range(4), "Integer": range(4), "Boolean": (0,), "Array": range(3), "Object": range(8), "OneOf": (0, 1), "AllOf": (0, 1), "AnyOf": (0, 1)}
    if brief:
        full = {k: [max(v) if k != "String" else 7] for k, v in full.items()}
    for k in kinds:
        for b in full[k]:
            for d in ((1,) if brief else (0, 1)):
                for n in ((True,) if brief else (False, True)):
                    if k in ("OneOf", "AllOf", "AnyOf") and n and not brief:
                        continue
                    yield sc("Model %s members=%d description=%d nullable=%d" % (k, b, d, n), "ser_model", lambda k=k, b=b, d=d, n=n: G.model(k, d, b, n))
    if not brief:
        for b in (10, 18):
            yield sc("Model Object additional=%d" % b, "ser_model", lambda b=b: G.model("Object", 0, b, False))
    for r in ("link", "any", "inline"):
        yield sc("ModelReference " + r, "ser_reference", lambda r=r: G.ref(r))
    for i in (0, 1, 2, 3, 4, 5, 6, 7) if not brief else (1, 2, 3):
        yield sc("SecurityScheme %d" % i, "ser_security_scheme", lambda i=i: G.security(i))
    for k, b in itertools.product(("Basic", "Bearer"), range(4) if not brief else (3,)):
        if k == "Basic" and b > 1 and not brief:
            continue
        yield sc("HttpSecurityScheme %s %d" % (k, b), "ser_http_scheme", lambda k=k, b=b: G.http(k, b))
    for w, b in itertools.product(("Query", "Header", "Path", "Cookie"), (0, 1)):
        if brief and (w, b) != ("Query", 1):
            continue
        yield sc("ApiKeySecurityScheme %s %d" % (w, b), "ser_key_scheme", lambda w=w, b=b: G.key(w, b))
    for w in ("Query", "Header", "Path", "Cookie"):
        yield sc("ParameterIn " + w, "ser_parameter_in", lambda w=w: (W.en("ParameterIn", w), w.lower()))
    for m in G.METHODS:
        yield sc("HttpMethod " + m, "ser_method", lambda m=m: (W.en("HttpMethod", m), m.lower()))
    for b in range(12) if not brief else (3,):
        yield sc("RequestBody %d" % b, "ser_request_body", lambda b=b: G.body(b))
    for b in (0, 1, 3, 5) if not brief else (1,):
        yield sc("Response %d" % b, "ser_response", lambda b=b: G.response(b))
    for on in subsets(G.OPF, thorough) if not brief else [set(G.OPF)]:
        yield sc("Operation %s" % ",".join(sorted(on)), "ser_operation", lambda on=on: G.operation(on))
    if not brief:
        for w in ("Query", "Header", "Path", "Cookie"):
            for b in range(16):
                def g(w=w, b=b):
                    o, j = G.operation(set())
                    v, pj = G.param(w, b)
                    o = W.mk("Operation", tags=[], summary=None, operation_id=None, description=None, deprecated=False, security=[], request_body=None, responses=[], parameters=[(G.a("pname"), v)], callbacks=[])
                    return o, {"responses": {}, "parameters": [dict(pj, name=G.a("pname"))]}
                yield sc("parameter %s %d" % (w, b), "ser_operation", g)
    for on in subsets(("summary", "description", "operations", "parameters"), thorough) if not brief else [{"summary", "description", "operations", "parameters"}]:
        yield sc("PathValue %s" % ",".join(sorted(on)), "ser_path_value", lambda on=on: G.path_value(on))
    yield sc("PathValue all methods", "ser_path_value", lambda: G.path_value({"operations"}, 0, "", G.METHODS))
    for n in (0, 1, 2):
        yield sc("CallbackObject %d" % n, "ser_callback", lambda n=n: G.callback(n))
    A = G.a
    for els in ([], [("Path", "a")], [("Parameter", "b")], [("Path", "a"), ("Parameter", "b"), ("Path", "c"), ("Parameter", "d")]):
        yield sc("Path %s" % "".join(k[:2] for k, _ in els), "ser_path", lambda els=els: G.path([(k, A(n)) for k, n in els]))
    for b in (0, 1):
        yield sc("Info %d" % b, "ser_info", lambda b=b: G.info(b))
    for b in range(4):
        yield sc("Components %d" % b, "ser_components", lambda b=b: G.components(b))
    for b in (0, 1):
        yield sc("Tag %d" % b, "ser_tag", lambda b=b: (W.mk("Tag", description=A("x") if b else None), {"description": A("x")} if b else {}))
        yield sc("Server %d" % b, "ser_server", lambda b=b: (W.mk("Server", url=A("u"), description=A("x") if b else None), dict({"url": A("u")}, **({"description": A("x")} if b else {}))))
    for on in subsets(("info", "tags", "servers", "paths", "components"), thorough) if not brief else [{"info", "tags", "servers", "paths", "components"}]:
        yield sc("Opg %s" % ",".join(sorted(on)), "ser_opg", lambda on=on: G.opg(on))


def keyed(W):
    """values whose keyed sections hold known keys, filled in an order that is not sorted; (key, serializer entry, builder, path to the section)"""
    G = Gen(W)
    ks = ["m", "z", "a", "Zz", "m2"]

    def ob():
        return W.mk("Model", description=None, data=W.en("ModelData", "Single", W.mk("ModelType", nullable=False, type_description=W.en(
            "ModelTypeDescription", "Object", W.mk("ModelObject", properties=[(k, G.ref("link", k)[0]) for k in ks], additional_properties=None, required=[])))))

    def op(**kw):
        f = dict(tags=[], summary=None, operation_id=None, description=None, deprecated=False, security=[], request_body=None, responses=[], parameters=[], callbacks=[])
        f.update(kw)
        return W.mk("Operation", **f)
    yield "properties of an object schema", "ser_model", ob, ["properties"]
    yield "schemas of the components", "ser_components", lambda: W.mk("Components", schemas=[(k, G.model("String", 1, 1, False, k)[0]) for k in ks], security_schemes=[]), ["schemas"]
    yield "security schemes of the components", "ser_components", lambda: W.mk("Components", schemas=[], security_schemes=[(k, G.security(0)[0]) for k in ks]), ["securitySchemes"]
    yield "responses of an operation", "ser_operation", lambda: op(responses=[(c, G.response(0, str(c))[0]) for c in (404, 500, 200, 201)]), ["responses"]
    yield "callbacks of an operation", "ser_operation", lambda: op(callbacks=[(k, G.callback(0)[0]) for k in ks]), ["callbacks"]
