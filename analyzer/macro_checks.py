"""C10, C11: documents built by describe_api!, compared with what was written."""
from engine import *
import macro_gen
from macro_gen import OneOfTerms



def names():
    return ["W%d" % i for i in range(8)] + [x[1] for x in macro_gen.PLACE.values() if x[1] != "W7"]



class MWorld(World):
    def leaf_names(self):
        return names()


def resolve(W, t):
    """expected term with the witness' parameters and leaf names filled in"""
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "S":
        return W.S(t[1])
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "LINK":
        return E("Link", W.S("name:" + t[1]))
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "B":
        return IntV(t[1])
    if isinstance(t, dict):
        return {resolve(W, k) if isinstance(k, tuple) else k: resolve(W, v) for k, v in t.items()}
    if isinstance(t, (list,)):
        return [resolve(W, x) for x in t]
    if isinstance(t, tuple):
        return tuple(resolve(W, x) for x in t)
    if isinstance(t, E):
        return E(t.n, *[resolve(W, x) for x in t.a])
    return t


def arg(W, n, ty, kind):
    if kind == "str":
        return W.S(n)
    if kind == "bool":
        return IntV(n)
    key = W.mk("ApiKeySecurityScheme", parameter_in=W.en("ParameterIn", "Query"), name=W.S(n + ".name"), description=None)
    return key if kind == "key" else W.en("SecurityScheme", "ApiKey", key)


def expected(W, doc):
    d = resolve(W, doc)
    d["components"]["schemas"] = {W.S("name:" + n): {"description": W.S("schema:" + n), "data": E("Single", {"nullable": False, "type_description": E("Boolean")})}
                                  for n in doc["components"]["schemas"]}
    for _, pi in d["paths"]:
        fix_path(pi)
    return d


def fix_path(pi):
    pi["operations"] = {k: op for k, op in pi["operations"].items()}
    for op in pi["operations"].values():
        for cb in op["callbacks"].values():
            for _, p in cb["paths"]:
                fix_path(p)


def mdiff(got, want, path):
    """diff with alternatives and maps keyed by enum terms"""
    if hasattr(want, "check"):
        return want.check(got, path)
    if isinstance(want, OneOfTerms):
        rs = [mdiff(got, w, path) for w in want.ts]
        return None if any(r is None for r in rs) else rs[0]
    if isinstance(want, dict) and isinstance(got, M):
        g = {key(k): v for k, v in got.items}
        w = {key(k): v for k, v in want.items()}
        if set(g) != set(w) or len(g) != len(got.items):
            return "%s: keys %s, expected %s" % (path, sorted(map(repr, g)), sorted(map(repr, w)))
        for k in w:
            r = mdiff(g[k], w[k], "%s.%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(want, dict) and isinstance(got, D):
        for k, w in want.items():
            r = mdiff(got[k], w, "%s.%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(want, dict) and isinstance(got, E) and len(got.a) == 1 and len(want) == 1:
        return mdiff(got.a[0], list(want.values())[0], path)
    if isinstance(want, E) and isinstance(got, E) and got.n == want.n and len(got.a) == len(want.a):
        for g, w in zip(got.a, want.a):
            r = mdiff(g, w, "%s/%s" % (path, want.n))
            if r:
                return r
        return None
    if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)) and len(got) == len(want):
        for i, (g, w) in enumerate(zip(got, want)):
            r = mdiff(g, w, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return diff(got, want, path)


def key(k):
    k = norm(k)
    return k.n if isinstance(k, E) and not k.a else k


def paths_only(want, got, path="paths"):
    """C11: templates, and the parameters located in the path, everywhere"""
    if not isinstance(got, (list, tuple)) or len(got) != len(want):
        return "%s: %d paths, expected %d" % (path, len(got), len(want))
    for i, ((we, wp), (ge, gp)) in enumerate(zip(want, got)):
        at = "%s[%d]" % (path, i)
        r = mdiff(ge, we, at)
        if r:
            return r
        gpar = {key(k): v for k, v in gp["parameters"].items}
        wpar = {key(n): p for n, p in wp["parameters"].items()}  # a later declaration of the same name replaces
        for n, p in wpar.items():
            if p["parameter_in"].n == "Path":
                if n not in gpar:
                    return "%s: placeholder %r has no parameter (declared: %s)" % (at, n, sorted(map(repr, gpar)))
                r = mdiff(gpar[n], p, "%s parameter %r" % (at, n))
                if r:
                    return r
        wnames = {n for n, p in wpar.items() if p["parameter_in"].n == "Path"}
        for n, p in gpar.items():
            if p["parameter_in"].n == "Path" and n not in wnames:
                return "%s: path parameter %r without placeholder" % (at, n)
        for m, op in wp["operations"].items():
            gops = {key(k): v for k, v in gp["operations"].items}
            if m not in gops:
                return "%s: operation %s is missing" % (at, m)
            for n, p in gops[m]["parameters"].items:
                if p["parameter_in"].n == "Path":
                    return "%s.%s: path parameter %r without placeholder" % (at, m, key(n))
            gcbs = {key(k): v for k, v in gops[m]["callbacks"].items}
            for cn, cb in op["callbacks"].items():
                if key(cn) not in gcbs:
                    return "%s.%s: callback %r is missing" % (at, m, cn)
                r = paths_only(cb["paths"], cbpaths(gcbs[key(cn)]), "%s.%s.callback %s" % (at, m, cn))
                if r:
                    return r
    return None


def cbpaths(c):
    return c["paths"] if isinstance(c, D) else c.a[0]


def run_docs(W, rep, wit, project, select=lambda w: True):
    def part(rep, ws):
        for name, text, params, doc, focus in ws:
            def run(I, name=name, params=params):
                return W.term(W.call("clean::" + name, *[arg(W, *p) for p in params]))

            def oracle(v, doc=doc):
                return project(v, expected(W, doc))
            scenario(rep, W, "%s (%s)" % (name, focus), run, oracle, "describe_api! in clean::%s: %s" % (name, " ".join(text.split())[:300]), refine=True)
    parallel(rep, W, [w for w in wit if select((w[0], w[4], w[3]))], part)


def c10(W, rep, wit):
    run_docs(W, rep, wit, lambda v, e: mdiff(v, e, "document"))


def c11(W, rep, wit):
    run_docs(W, rep, wit, lambda v, e: paths_only(e["paths"], v["paths"]), select=lambda w: bool(w[2]["paths"]))


# ---------- C12
def resolve12(W, t):
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "MODEL":
        return {"description": W.S(t[1]), "data": E("Single", {"nullable": True, "type_description": E("Boolean")})}
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "DATA":
        return E("OneOf", {"one_of": [E("Link", W.S(t[1])), E("Any")]})
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "S":
        return W.S(t[1])
    if isinstance(t, dict):
        return {k: resolve12(W, v) for k, v in t.items()}
    if isinstance(t, list):
        return [resolve12(W, x) for x in t]
    if isinstance(t, E):
        return E(t.n, *[resolve12(W, x) for x in t.a])
    return t


def arg12(W, n, ty, kind):
    if kind == "str":
        return W.S(n)
    if kind == "model":
        return W.mk("Model", description=W.S(n), data=W.en("ModelData", "Single", W.mk("ModelType", nullable=True, type_description=W.en("ModelTypeDescription", "Boolean"))))
    return W.en("ModelData", "OneOf", W.mk("ModelOneOf", one_of=[W.en("ModelReference", "Link", W.S(n)), W.en("ModelReference", "Any")]))


def c12(W, rep, wit):
    for name, text, params, model, focus in wit:
        def run(I, name=name, params=params):
            return W.term(W.call("clean::" + name, *[arg12(W, *p) for p in params]))
        scenario(rep, W, "%s (%s)" % (name, focus), run, lambda v, m=model: mdiff(v, resolve12(W, m), "schema"),
                 "describe_type! in clean::%s: %s" % (name, " ".join(text.split())[:300]))


# ---------- C01, C26 on whole documents
def entries(W, doc, v):
    """registered schemas of the finished document, and the names of the leaf types"""
    leaves = {norm(W.S("name:" + n)): n for n in names()}
    return {norm(k): x for k, x in v["components"]["schemas"].items}, leaves


def c01(W, rep, wit):
    from core_checks import links

    def project(v, e):
        reg, leaves = entries(W, e, v)
        dang = [x for x in links([v["paths"], v["components"]], []) if x in leaves and x not in reg]
        if dang:
            return "references without a registered schema: %s" % dang
    run_docs(W, rep, wit, project)


def c26(W, rep, wit):
    from core_checks import M_single

    def project(v, e):
        reg, leaves = entries(W, e, v)
        known = None
        for k, x in reg.items():
            if k not in leaves:
                return "unexpected registered name %r" % (k,)
            d = W.S("schema:" + leaves[k])
            r = mdiff(x, M_single(E("Boolean"), False, d), "schema of %r" % (k,))
            if r and mdiff(x, M_single(E("Boolean"), True, d), "") is None:
                known = known or Known("option-first-mention", r)
            elif r:
                return r
        return known
    run_docs(W, rep, wit, project)
