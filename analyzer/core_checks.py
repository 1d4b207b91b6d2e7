"""C01-C09, C22 (serialization part), C26 (registry part): the document model and the registry."""
import itertools
from engine import *

THOROUGH = False


def sym(W, n):
    return W.S(n)


# ---------- abstract model builders
def single(W, td, nullable=False, description=None):
    return W.mk("Model", description=description, data=W.en("ModelData", "Single", W.mk("ModelType", nullable=nullable, type_description=td)))


def simple(W, fmt=None, ex=None):
    return W.mk("ModelSimple", format=fmt, example=ex)


def t_string(W, variants=None, fmt=None, ex=None):
    return W.en("ModelTypeDescription", "String", W.mk("ModelString", variants=variants, data=simple(W, fmt, ex)))


def t_obj(W, props=(), addl=None, req=()):
    return W.en("ModelTypeDescription", "Object", obj(W, props, addl, req))


def obj(W, props=(), addl=None, req=()):
    return W.mk("ModelObject", properties=list(props), additional_properties=addl, required=list(req))


def link(W, n):
    return W.en("ModelReference", "Link", n)


def inline(W, m):
    return W.en("ModelReference", "Inline", m)


def anyref(W):
    return W.en("ModelReference", "Any")


def refs_model(W, kind, refs):
    """model whose references are refs, for every reference-carrying constructor"""
    if kind in ("OneOf", "AllOf", "AnyOf"):
        fld = {"OneOf": "one_of", "AllOf": "all_of", "AnyOf": "any_of"}[kind]
        return W.mk("Model", description=None, data=W.en("ModelData", kind, W.mk("Model" + kind, **{fld: list(refs)})))
    if kind == "Array":
        return single(W, W.en("ModelTypeDescription", "Array", W.mk("ModelArray", items=refs[0])))
    if kind == "Properties":
        return single(W, t_obj(W, [(W.S("p%d" % i), r) for i, r in enumerate(refs)]))
    if kind == "Additional":
        return single(W, t_obj(W, [], refs[0]))
    if kind == "PropertiesAndAdditional":
        return single(W, t_obj(W, [(W.S("p%d" % i), r) for i, r in enumerate(refs[:-1])], refs[-1]))
    raise ValueError(kind)


KINDS = ["OneOf", "AllOf", "AnyOf", "Array", "Properties", "Additional", "PropertiesAndAdditional"]
MULTI = ["OneOf", "AllOf", "AnyOf", "Properties", "PropertiesAndAdditional"]


def decoys(W):
    return [link(W, W.S("reg0")), anyref(W), inline(W, single(W, t_string(W)))]


def chain(W, kinds, leaf, pos):
    """leaf reference below a chain of constructors; decoys around it according to pos"""
    r = leaf
    for i, k in enumerate(reversed(kinds)):
        if k in MULTI:
            ds = decoys(W)
            refs = {"first": [r] + ds, "last": ds + [r], "mid": ds[:1] + [r] + ds[1:], "only": [r]}[pos]
        else:
            refs = [r]
        m = refs_model(W, k, refs)
        r = inline(W, m)
    return m


def components(W, schemas, security=()):
    return W.mk("Components", schemas=list(schemas), security_schemes=list(security))


def c02(W, rep):
    depth = 4 if THOROUGH else 3
    A = "opg::models::Components::verify_schemas"
    for n in range(1, depth + 1):
        for ks in itertools.product(KINDS, repeat=n):
            if n == 4 and len(set(ks)) < 3:
                continue
            poss = ["first", "last", "mid", "only"] if n <= 2 else ["mid"]
            if not any(k in MULTI for k in ks):
                poss = ["only"]
            for pos in poss:
                for bad in (True, False):
                    def run(I, ks=ks, pos=pos, bad=bad):
                        leaf = link(W, W.S("dangling") if bad else W.S("reg1"))
                        c = components(W, [(W.S("reg0"), single(W, t_string(W))), (W.S("reg1"), chain(W, ks, leaf, pos)),
                                           (W.S("reg2"), single(W, t_obj(W, [(W.S("q"), link(W, W.S("reg0")))])))])
                        return W.term(W.call("verify", Ref([c], 0)))

                    def oracle(v, bad=bad):
                        want = ("Err", W.S("dangling")) if bad else ("Ok", ())
                        return diff(v, want, "verify")
                    scenario(rep, W, "%s/%s/%s" % ("dangling" if bad else "resolved", pos, ">".join(ks)), run, oracle, A)
    # which schema of the registry holds the dangling reference does not matter; several dangling references
    for at in range(3):
        def run(I, at=at):
            es = []
            for i in range(3):
                es.append((W.S("reg%d" % i), refs_model(W, "OneOf", [link(W, W.S("reg0")), link(W, W.S("bad") if i == at else W.S("reg1"))])))
            return W.term(W.call("verify", Ref([components(W, es)], 0)))
        scenario(rep, W, "dangling/entry%d" % at, run, lambda v: diff(v, ("Err", W.S("bad")), "verify"), A)

    def run2(I):
        es = [(W.S("reg%d" % i), refs_model(W, "Properties", [link(W, W.S("bad%d" % i))])) for i in range(3)]
        return W.term(W.call("verify", Ref([components(W, es)], 0)))

    def o2(v):
        if not (isinstance(v, tuple) and v[0] == "Err"):
            return "verify: %r, expected an error" % (v,)
        if norm(v[1]) not in [norm(W.S("bad%d" % i)) for i in range(3)]:
            return "verify reported %r which is not dangling" % (v[1],)
    scenario(rep, W, "dangling/several", run2, o2, A)

    def run3(I):
        return W.term(W.call("verify", Ref([components(W, [])], 0)))
    scenario(rep, W, "empty registry", run3, lambda v: diff(v, ("Ok", ()), "verify"), A)
    import sampled_checks
    sampled_checks.c02(W, rep)


# ---------- C04
def c04(W, rep):
    A = "opg::models::Components::add_model"
    mods = {k: single(W, t_string(W), description=k) for k in ("m0", "m1")}

    def entry(n):
        return single(W, t_string(W), description=W.S("d:" + n))

    for fn in ("add_model", "add_model_str"):
        for present in ((), ("x",), ("n",), ("x", "n"), ("n", "x", "y")):
            def run(I, present=present, fn=fn):
                c = [components(W, [(W.S(n), entry(n)) for n in present], [(W.S("sec"), sec_http(W))])]
                before = W.term(c[0])
                nm = StringV(W.S("n")) if fn == "add_model" else W.S("n")
                W.call(fn, Ref(c, 0), nm, entry("new"))
                return before, W.term(c[0])

            def oracle(v, present=present):
                b, a = v
                want = {norm(k): x for k, x in b["schemas"].items}
                if "n" not in present:
                    want[norm(W.S("n"))] = W.term(entry("new"))
                return diff(a["schemas"], want, "schemas") or diff(a["security_schemes"], b["security_schemes"], "security")
            scenario(rep, W, "%s present=%s" % (fn, ",".join(present) or "-"), run, oracle, A)
    A = "opg::models::Components::mention_security_scheme"
    kinds = {"mention_http": (lambda: http(W, "Bearer", format=W.S("fmt"), description=W.S("sd")), lambda t: E("Http", t)),
             "mention_key": (lambda: W.mk("ApiKeySecurityScheme", parameter_in=W.en("ParameterIn", "Header"), name=W.S("hdr"), description=None), lambda t: E("ApiKey", t)),
             "mention_any": (lambda: sec_http(W), lambda t: t)}
    for fn, (mk, wr) in kinds.items():
        for present in ((), ("x",), ("n",), ("x", "n"), ("n", "x", "y")):
            def run(I, fn=fn, mk=mk, present=present):
                c = [components(W, [(W.S("m"), entry("m"))], [(W.S(n), sec_http(W, W.S("d:" + n))) for n in present])]
                before = W.term(c[0])
                s = [mk()]
                r = W.call(fn, Ref(c, 0), StringV(W.S("n")), Ref(s, 0))
                return before, W.term(c[0]), W.term(r), W.term(s[0])

            def oracle(v, present=present, wr=wr):
                b, a, r, s = v
                want = {norm(k): x for k, x in b["security_schemes"].items}
                if "n" not in present:
                    want[norm(W.S("n"))] = wr(s)
                return diff(r, W.S("n"), "returned name") or diff(a["security_schemes"], want, "security_schemes") or diff(a["schemas"], b["schemas"], "schemas")
            scenario(rep, W, "%s present=%s" % (fn, ",".join(present) or "-"), run, oracle, A)
    for present in (True, False):
        def run(I, present=present):
            c = [components(W, [(W.S("x"), entry("x"))] + ([(W.S("n"), entry("n"))] if present else []))]
            return W.term(W.call("contains_model", Ref(c, 0), W.S("n")))
        scenario(rep, W, "contains_model present=%s" % present, run, lambda v, p=present: diff(bool(v) if isinstance(v, int) else v, p, "contains_model"), "opg::models::Components::contains_model")
    import sampled_checks
    sampled_checks.c04(W, rep)


def http(W, variant, **f):
    return W.en("HttpSecurityScheme", variant, **f)


def sec_http(W, d=None):
    return W.en("SecurityScheme", "Http", http(W, "Basic", description=d))


# ---------- C05
def shapes(W, full):
    """every schema shape, with its optional members present or absent"""
    f, e = (W.S("f0"), W.S("e0")) if full else (None, None)
    vs = [W.S("v0"), W.S("v1")] if full else None
    nested = inline(W, single(W, t_string(W, None, W.S("nf"), W.S("ne")), False, W.S("nd")))
    return {
        "String": lambda: t_string(W, vs, f, e),
        "Number": lambda: W.en("ModelTypeDescription", "Number", simple(W, f, e)),
        "Integer": lambda: W.en("ModelTypeDescription", "Integer", simple(W, f, e)),
        "Boolean": lambda: W.en("ModelTypeDescription", "Boolean"),
        "Array": lambda: W.en("ModelTypeDescription", "Array", W.mk("ModelArray", items=copyv(nested))),
        "Object": lambda: t_obj(W, [(W.S("p"), copyv(nested)), (W.S("q"), link(W, W.S("L")))] if full else [], copyv(nested) if full else None, [W.S("p")] if full else []),
    }


def all_models(W, full, nullable=False):
    d = W.S("d0") if full else None
    out = {k: (lambda g=g: single(W, g(), nullable, d)) for k, g in shapes(W, full).items()}
    for k in ("OneOf", "AllOf", "AnyOf"):
        fld = {"OneOf": "one_of", "AllOf": "all_of", "AnyOf": "any_of"}[k]

        def g(k=k, fld=fld):
            refs = [link(W, W.S("L")), inline(W, single(W, t_string(W, None, W.S("nf"), None), False, None))] if full else []
            return W.mk("Model", description=d, data=W.en("ModelData", k, W.mk("Model" + k, **{fld: refs})))
        out[k] = g
    return out


def params(W, d=None, n=None, v=None, f=None, e=None):
    return W.mk("ContextParams", description=d, nullable=n, variants=v, format=f, example=e)


def expected_apply(W, before, d, n, v, f, e):
    """the model term after the overrides, computed independently"""
    data = before["data"]
    m = dict(before.f)
    if d is not None:
        m["description"] = d
    if data.n == "Single":
        mt = dict(data.a[0].f)
        if n is not None:
            mt["nullable"] = n
        td = mt["type_description"]
        if td.n in ("Number", "Integer"):
            s = dict(td.a[0].f)
            if f is not None:
                s["format"] = f
            if e is not None:
                s["example"] = e
            mt["type_description"] = E(td.n, D("ModelSimple", s))
        elif td.n == "String":
            st = dict(td.a[0].f)
            if v is not None:
                st["variants"] = v
            s = dict(st["data"].f)
            if f is not None:
                s["format"] = f
            if e is not None:
                s["example"] = e
            st["data"] = D("ModelSimple", s)
            mt["type_description"] = E("String", D("ModelString", st))
        m["data"] = E("Single", D("ModelType", mt))
    return D("Model", m)


def c05(W, rep):
    A = "opg::models::Model::apply_params"
    for full in (True, False):
        for nul in (False, True):
            for kind in all_models(W, full, nul):
                for bits in itertools.product((0, 1), (None, True, False), (0, 1, 2), (0, 1), (0, 1)):
                    if nul and bits[2] == 2:
                        continue

                    def mkp(bits=bits):
                        return (W.S("D") if bits[0] else None, bits[1], [W.S("V0"), W.S("V1")] if bits[2] == 1 else [] if bits[2] == 2 else None,
                                W.S("F") if bits[3] else None, W.S("E") if bits[4] else None)

                    def run(I, kind=kind, full=full, nul=nul):
                        m = all_models(W, full, nul)[kind]()
                        before = W.term(m)
                        p = [params(W, *mkp())]
                        pb = W.term(p[0])
                        r = W.call("apply_params", m, Ref(p, 0))
                        return before, W.term(r), pb, W.term(p[0])

                    def oracle(v):
                        b, a, pb, pa = v
                        return diff(a, expected_apply(W, b, *mkp()), "schema") or diff(pa, pb, "params")
                    scenario(rep, W, "%s full=%d nullable=%d params=%s" % (kind, full, nul, "".join("-" if x in (0, None) else str(int(x)) for x in bits)), run, oracle, A, refine=bits == (1, True, 1, 1, 1))
    import sampled_checks
    sampled_checks.c05(W, rep)


# ---------- C06
def c06(W, rep):
    A = "opg::models::ModelObject::merge"

    def r_(n):
        return link(W, W.S("L" + n))
    psets = [(), ("a",), ("a", "b")]
    qsets = [(), ("c",), ("c", "d"), ("a",), ("c", "a"), ("b", "c"), ("a", "b")]
    for ps in psets:
        for qs in qsets:
            for aa, ba in itertools.product((0, 1), (0, 1)):
                for rq in (0, 1):
                    preq = list(ps) if rq else []
                    qreq = list(qs) if rq else list(qs)[:1]
                    for how in ("merge", "try_merge"):
                        def run(I):
                            a = obj(W, [(W.S(n), r_("a" + n)) for n in ps], r_("adda") if aa else None, [W.S(n) for n in preq])
                            b = obj(W, [(W.S(n), r_("b" + n)) for n in qs], r_("addb") if ba else None, [W.S(n) for n in qreq])
                            if how == "merge":
                                c = [a]
                                r = W.call("merge", Ref(c, 0), b)
                                return W.term(r), W.term(c[0])
                            c = [single(W, W.en("ModelTypeDescription", "Object", a), True, W.S("da"))]
                            r = W.call("try_merge", Ref(c, 0), single(W, W.en("ModelTypeDescription", "Object", b), False, W.S("db")))
                            t = W.term(c[0])
                            if t["data"].n != "Single" or t["data"].a[0]["type_description"].n != "Object":
                                return "shape", t
                            if diff(t["description"], W.S("da")) or diff(t["data"].a[0]["nullable"], True):
                                return "head", t
                            return W.term(r), t["data"].a[0]["type_description"].a[0]

                        def oracle(v):
                            res, o = v
                            if res in ("shape", "head"):
                                return "merging changed the target outside its object members: %r" % (o,)
                            clash = bool(set(ps) & set(qs)) or (aa and ba)
                            if clash:
                                if res[0] != "Err":
                                    return "clash accepted: %r" % (res,)
                                got = {norm(k): x for k, x in o["properties"].items}
                                for n in ps:
                                    if diff(got.get(norm(W.S(n)), None), E("Link", W.S("La" + n))):
                                        return "existing property %s was lost or replaced: %r" % (n, o)
                                if aa and diff(o["additional_properties"], E("Link", W.S("Ladda"))):
                                    return "existing additional properties were lost or replaced: %r" % (o,)
                                return None
                            if res[0] != "Ok":
                                return "disjoint merge rejected"
                            want = {norm(W.S(n)): E("Link", W.S("La" + n)) for n in ps}
                            want.update({norm(W.S(n)): E("Link", W.S("Lb" + n)) for n in qs})
                            wa = E("Link", W.S("Ladda")) if aa else E("Link", W.S("Laddb")) if ba else None
                            return diff(o["properties"], want, "properties") or diff(o["additional_properties"], wa, "additional_properties") or \
                                same_set(o["required"], [W.S(n) for n in preq + qreq], "required")
                        scenario(rep, W, "%s a=%s b=%s additional=%d%d required=%d" % (how, "".join(ps) or "-", "".join(qs) or "-", aa, ba, rq), run, oracle, A, refine=(rq == 1))
    # merging with anything that is not an object schema is an error and changes nothing in the target
    for k1 in all_models(W, True):
        for k2 in all_models(W, True):
            if (k1, k2) == ("Object", "Object"):
                continue

            def run(I, k1=k1, k2=k2):
                c = [all_models(W, True)[k1]()]
                b = W.term(c[0])
                r = W.call("try_merge", Ref(c, 0), all_models(W, True)[k2]())
                return W.term(r), b, W.term(c[0])
            scenario(rep, W, "try_merge %s with %s" % (k1, k2), run, lambda v: ("accepted" if v[0][0] != "Err" else None) or diff(v[2], v[1], "target"), "opg::models::Model::try_merge")
    A = "opg::models::ModelObject::add_property"
    for ps in ((), ("a",), ("a", "b"), ("n",), ("a", "n")):
        for req in (False, True):
            for preq in (False, True):
                def run(I):
                    c = [obj(W, [(W.S(n), r_("a" + n)) for n in ps], r_("add"), [W.S(n) for n in ps] if preq else [])]
                    b = W.term(c[0])
                    r = W.call("add_property", Ref(c, 0), StringV(W.S("n")), r_("new"), int(req))
                    return W.term(r), b, W.term(c[0])

                def oracle(v):
                    res, b, a = v
                    if "n" in ps:
                        return ("existing property accepted" if res[0] != "Err" else None) or diff(a, b, "object")
                    if res[0] != "Ok":
                        return "new property rejected"
                    want = {norm(k): x for k, x in b["properties"].items}
                    want[norm(W.S("n"))] = E("Link", W.S("Lnew"))
                    return diff(a["properties"], want, "properties") or diff(a["additional_properties"], b["additional_properties"], "additional") or \
                        same_set(a["required"], [W.S(n) for n in (list(ps) if preq else [])] + ([W.S("n")] if req else []), "required")
                scenario(rep, W, "add_property have=%s required=%d had=%d" % ("".join(ps) or "-", req, preq), run, oracle, A)
    import sampled_checks
    sampled_checks.c06(W, rep)


def same_set(got, want, path):
    g = sorted(repr(norm(x)) for x in got)
    w = sorted(repr(norm(x)) for x in want)
    return None if g == w else "%s: %s, expected %s" % (path, g, w)


# ---------- C08 / C09
def M_single(td, nullable=False, description=None):
    return {"description": description, "data": E("Single", {"nullable": nullable, "type_description": td})}


def P_simple(f=None, e=None):
    return {"format": f, "example": e}


def P_string(f=None, e=None):
    return E("String", {"variants": None, "data": P_simple(f, e)})


def L(W, n):
    return E("Link", W.S("name:" + n))


def P_array(r):
    return E("Array", {"items": r})


SCALARS = {
    "char": ("String", "char"), "str": ("String", None), "string": ("String", None),
    "i8": ("Integer", "int8"), "u8": ("Integer", "uint8"), "i16": ("Integer", "int16"), "u16": ("Integer", "uint16"),
    "i32": ("Integer", "int32"), "u32": ("Integer", "uint32"), "i64": ("Integer", "int64"), "u64": ("Integer", "uint64"),
    "isize": ("Integer", None), "usize": ("Integer", None), "f32": ("Number", "float"), "f64": ("Number", "double"), "bool": ("Boolean", None),
}
for _k in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "bool"):
    SCALARS["a" + _k] = SCALARS[_k]


def scalar_term(kind, fmt):
    if kind == "Boolean":
        return E("Boolean")
    if kind == "String":
        return P_string(fmt)
    return E(kind, P_simple(fmt))


def reg(W, *ns):
    return {norm(W.S("name:" + n)): M_single(E("Boolean"), False, W.S("schema:" + n)) for n in ns}


def tuple_items(W, n):
    return P_array(E("Inline", {"description": None, "data": E("OneOf", {"one_of": [L(W, "W%d" % i) for i in range(n)]})}))


REPEATED = {"reptuple_a": (0, 0), "reptuple_b": (0, 0, 0), "reptuple_c": (1, 0, 0, 1), "reptuple_d": (2, 1, 1, 0, 0, 2), "reptuple_e": (0, 0, 0, 0, 0, 0, 0), "reptuple_f": (3, 2, 1, 0)}


def builtin_expect(W, name):
    """(model term, registered leaves)"""
    if name in SCALARS:
        return M_single(scalar_term(*SCALARS[name])), {}
    if name in ("slice", "vec", "hashset", "linkedlist", "vecdeque", "binaryheap") or name.startswith("array"):
        return M_single(P_array(L(W, "W0"))), reg(W, "W0")
    if name in ("hashmap", "btreemap"):
        return M_single(E("Object", {"properties": {}, "additional_properties": L(W, "W1"), "required": []})), reg(W, "W1")
    if name in REPEATED:
        ws = ["W%d" % i for i in REPEATED[name]]
        return M_single(P_array(E("Inline", {"description": None, "data": E("OneOf", {"one_of": [L(W, w) for w in ws]})}))), reg(W, *sorted(set(ws)))
    if name.startswith("tuple"):
        n = int(name[5:])
        if n == 1:
            return M_single(P_array(L(W, "W0"))), reg(W, "W0")
        return M_single(tuple_items(W, n)), reg(W, *["W%d" % i for i in range(n)])
    if name == "unit":
        return M_single(P_string("null"), True, Any), {}
    if name == "uuid":
        return M_single(P_string("uuid", Any), False, Any), {}
    if name in ("naivedatetime", "datetime", "naivedate"):
        return M_single(P_string("date", Any), False, Any), {}
    return None


def overrides(W):
    return [("none", (None, None, None, None, None)), ("all", (W.S("D"), True, [W.S("V0")], W.S("F"), W.S("E"))), ("nonnull", (None, False, None, None, None)), ("descr", (W.S("D"), None, None, None, None))]


def check_modes(W, rep, name, expect, registered, anchor, nameless=True, cfg=""):
    """schema(), name(), mention/select with inline false/true and overrides"""
    key = name + cfg

    def run(I):
        c = [W.call("default_components")]
        m = W.call("t_%s::schema" % name, Ref(c, 0))
        return W.term(m), W.term(c[0])
    scenario(rep, W, key + " schema", run, lambda v: diff(v[0], expect(), "schema") or diff(v[1]["schemas"], registered(), "registered"), anchor)
    if nameless:
        scenario(rep, W, key + " name", lambda I: W.term(W.call("t_%s::name" % name), None), lambda v: diff(v, None, "type_name"), anchor)
    for inl in (0, 1):
        for on, ov in overrides(W):
            for how in ("mention", "select"):
                def run(I, inl=inl, ov=ov, how=how):
                    c = [W.call("default_components")]
                    p = [params(W, *ov)]
                    r = W.call("t_%s::%s" % (name, how), Ref(c, 0), inl, Ref(p, 0))
                    return W.term(r), W.term(c[0])

                def oracle(v, ov=ov):
                    r, c = v
                    if r.n != "Inline":
                        return "documented by %r instead of inline" % (r,)
                    ex = apply_expect(expect(), ov)
                    return diff(r.a[0], ex, "schema") or diff(c["schemas"], registered(), "registered")
                scenario(rep, W, "%s %s inline=%d overrides=%s" % (key, how, inl, on), run, oracle, anchor)


def apply_expect(ex, ov):
    d, n, v, f, e = ov
    ex = dict(ex)
    if d is not None:
        ex["description"] = d
    dt = ex["data"]
    if dt.n != "Single":
        return ex
    mt = dict(dt.a[0])
    if n is not None:
        mt["nullable"] = n
    td = mt["type_description"]
    if td.n == "String":
        s = dict(td.a[0])
        if v is not None:
            s["variants"] = v
        s["data"] = dict(s["data"])
        if f is not None:
            s["data"]["format"] = f
        if e is not None:
            s["data"]["example"] = e
        mt["type_description"] = E("String", s)
    elif td.n in ("Integer", "Number"):
        s = dict(td.a[0])
        if f is not None:
            s["format"] = f
        if e is not None:
            s["example"] = e
        mt["type_description"] = E(td.n, s)
    ex["data"] = E("Single", mt)
    return ex


BUILTINS = list(SCALARS) + ["slice", "vec", "hashset", "linkedlist", "vecdeque", "binaryheap", "array1", "array2", "array16", "array31", "array32",
                            "hashmap", "btreemap", "unit", "uuid", "naivedatetime", "datetime", "naivedate"] + ["tuple%d" % i for i in range(1, 11)] + sorted(REPEATED)


def anchor_of(W, name):
    i = W.I.find_fn("wcore::t_%s::schema" % name)
    if not i:
        return ""
    for b in W.I.fns[i[0]]["body"]["blocks"]:
        if b and b[1][0] == "call" and isinstance(b[1][1], int):
            f = W.I.fns[b[1][1]]
            return "%s (%s)" % (f["n"], f["span"])
    return ""


def c08(W, rep, cfg=""):
    names = BUILTINS + (["array0", "array33"] if W.has("t_array0::schema") else [])
    for n in names:
        if not W.has("t_%s::schema" % n):
            rep.add("instance " + n, False, "no OpgModel instance for " + n)
            continue
        check_modes(W, rep, n, lambda n=n: builtin_expect(W, n)[0], lambda n=n: builtin_expect(W, n)[1], anchor_of(W, n), cfg=cfg)


WRAPPERS = ["ref", "refmut", "box", "rc", "arc", "cell", "refcell"]


def c09(W, rep):
    leaf = lambda nullable=False: M_single(E("Boolean"), nullable, W.S("schema:W0"))
    for w in WRAPPERS + ["option", "option_box", "rc_option"]:
        opt = "option" in w
        A = anchor_of(W, w)

        def run(I, w=w):
            c = [W.call("default_components")]
            return W.term(W.call("t_%s::schema" % w, Ref(c, 0))), W.term(c[0])
        scenario(rep, W, w + " schema", run, lambda v, opt=opt: diff(v[0], leaf(opt), "schema") or diff(v[1]["schemas"], {}, "registered"), A)
        scenario(rep, W, w + " name", lambda I, w=w: W.term(W.call("t_%s::name" % w)), lambda v: diff(v, W.S("name:W0"), "type_name"), A)
        for on, ov in overrides(W):
            def run(I, w=w, ov=ov):
                c = [W.call("default_components")]
                p = [params(W, *ov)]
                return W.term(W.call("t_%s::with_params" % w, Ref(c, 0), Ref(p, 0)))
            scenario(rep, W, "%s get_schema_with_params overrides=%s" % (w, on), run, lambda v, opt=opt, ov=ov: diff(v, apply_expect(leaf(opt), ov), "schema"), A)
            for inl in (0, 1):
                for how in ("mention", "select"):
                    def run(I, w=w, ov=ov, inl=inl, how=how):
                        c = [W.call("default_components")]
                        p = [params(W, *ov)]
                        r = W.call("t_%s::%s" % (w, how), Ref(c, 0), inl, Ref(p, 0))
                        return W.term(r), W.term(c[0])

                    def oracle(v, opt=opt, inl=inl, ov=ov, how=how):
                        r, c = v
                        if inl:
                            return diff(r, E("Inline", apply_expect(leaf(opt), ov)), "reference") or diff(c["schemas"], {}, "registered")
                        e = diff(r, E("Link", W.S("name:W0")), "reference")
                        if e:
                            return e
                        if how == "mention":
                            if c["schemas"].keys() != [norm(W.S("name:W0"))]:
                                return "registered names %r" % (c["schemas"].keys(),)
                    scenario(rep, W, "%s %s inline=%d overrides=%s" % (w, how, inl, on), run, oracle, A)
    import sampled_checks
    sampled_checks.c09(W, rep)
    # transparency over an unnamed, inline-only type: wrapper behaves like the type
    for w, base in (("box_str", "str"), ("ref_str", "str"), ("box_slice", "slice")):
        check_modes(W, rep, w, lambda b=base: builtin_expect(W, b)[0], lambda b=base: builtin_expect(W, b)[1], anchor_of(W, w))
    for w, base in (("option_string", "string"), ("option_vec", "vec")):
        def ex(b=base):
            e = builtin_expect(W, b)[0]
            mt = dict(e["data"].a[0])
            mt["nullable"] = True
            return {"description": e["description"], "data": E("Single", mt)}
        check_modes(W, rep, w, ex, lambda b=base: builtin_expect(W, b)[1], anchor_of(W, w))


# ---------- C01 / C03 / C26
GRAPH = {
    "GA": [("b", "GB"), ("c", "GC")], "GB": [("d", "GD")], "GC": [("d", "GD"), ("n", "i32")], "GD": [], "GE": [("me", "GE")],
    "GF": [("h", "GH"), ("items", "Vec<GF>")], "GH": [("f", "GF"), ("e", "GE")],
    "GI": [("m", "Map<GJ>"), ("o", "(GD,GI)")], "GJ": [("i", "[GI]"), ("j", "GJ")],
}


def g_ref(t):
    if t == "i32":
        return E("Inline", M_single(E("Integer", P_simple("int32"))))
    if t.startswith("Vec<") or t.startswith("["):
        return E("Inline", M_single(P_array(g_ref(t[1:-1] if t[0] == "[" else t[4:-1]))))
    if t.startswith("Map<"):
        return E("Inline", M_single(E("Object", {"properties": {}, "additional_properties": g_ref(t[4:-1]), "required": []})))
    if t.startswith("("):
        return E("Inline", M_single(P_array(E("Inline", {"description": None, "data": E("OneOf", {"one_of": [g_ref(x) for x in t[1:-1].split(",")]})}))))
    return E("Link", t)


def g_schema(n):
    return M_single(E("Object", {"properties": {f: g_ref(t) for f, t in GRAPH[n]}, "additional_properties": None, "required": [f for f, _ in GRAPH[n]]}), False, n)


def g_deps(t):
    import re
    return [x for x in re.findall(r"G[A-Z]", t)]


def closure(ns):
    seen = []
    todo = list(ns)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.append(n)
        for _, t in GRAPH[n]:
            todo += g_deps(t)
    return set(seen)


def count_hook(W):
    """counts expansions of graph types"""
    def pred(I, f):
        return f["ti"] == "opg::models::OpgModel::get_schema" and f["self"] is not None and I.tname(f["self"]).startswith("wcore::G")

    def h(I, f, a):
        I.state.setdefault("expand", []).append(I.tname(f["self"]).rsplit("::", 1)[1])
        return NotImplemented
    if not getattr(W, "_ch", False):
        W.I.hook_pred.append((pred, h))
        for f in W.I.fns:
            f.pop("_h", None)
        W._ch = True


G_PROBES = {"g_a": "GA", "g_b": "GB", "g_c": "GC", "g_d": "GD", "g_e": "GE", "g_f": "GF", "g_h": "GH", "g_i": "GI", "g_j": "GJ"}


def c03(W, rep):
    count_hook(W)
    A = "opg::models::Components::mention_schema"
    seqs = [(p,) for p in G_PROBES] + [("g_a", "g_a"), ("g_d", "g_a"), ("g_e", "g_f", "g_h"), ("g_h", "g_f"), ("g_i", "g_j", "g_a"), ("g_vec", "g_a"), ("g_map", "g_c"), ("g_f", "g_i")]
    if THOROUGH:
        seqs += list(itertools.permutations(list(G_PROBES), 2))
    for seq in seqs:
        def run(I, seq=seq):
            c = [W.call("default_components")]
            rs = []
            for p in seq:
                rs.append(W.term(W.call(p + "::mention", Ref(c, 0), 0, Ref([params(W)], 0))))
            v = W.term(W.call("verify", Ref(c, 0)))
            return rs, W.term(c[0]), list(I.state.get("expand", [])), v

        def oracle(v, seq=seq):
            rs, c, ex, ver = v
            roots = []
            for p in seq:
                roots += g_deps({"g_vec": "GA", "g_map": "GC", "g_opt": "GA"}.get(p, G_PROBES.get(p)))
            want = closure(roots)
            twice = sorted(set(x for x in ex if ex.count(x) > 1))
            if twice:
                return "expanded more than once: %s" % twice
            return diff(c["schemas"], {n: g_schema(n) for n in want}, "schemas") or diff(ver, ("Ok", ()), "verify")
        scenario(rep, W, "mention " + ",".join(seq), run, oracle, A, diverge_bad=True)
    # inlining the root of a cyclic graph still terminates: the inner mentions are references
    for p in ("g_e", "g_f", "g_i"):
        def run(I, p=p):
            c = [W.call("default_components")]
            r = W.term(W.call(p + "::mention", Ref(c, 0), 1, Ref([params(W)], 0)))
            return r, W.term(c[0])

        def oracle(v, p=p):
            n = G_PROBES[p]
            return diff(v[0], E("Inline", g_schema(n)), "inlined") or diff(v[1]["schemas"], {x: g_schema(x) for x in closure(g_deps(" ".join(t for _, t in GRAPH[n])))}, "schemas")
        scenario(rep, W, "inline " + p, run, oracle, A, diverge_bad=True)


def links(t, out):
    if isinstance(t, E):
        if t.n == "Link":
            out.append(norm(t.a[0]))
        for x in t.a:
            links(x, out)
    elif isinstance(t, D):
        for x in t.f.values():
            links(x, out)
    elif isinstance(t, M):
        for _, x in t.items:
            links(x, out)
    elif isinstance(t, (list, tuple)):
        for x in t:
            links(x, out)
    return out


def c01(W, rep):
    A = "opg::models::Components::mention_schema"
    probes = ["t_" + n for n in BUILTINS + WRAPPERS + ["w0", "option", "option_vec", "vec_option", "box_slice", "rc_option", "option_box"]] + \
        list(G_PROBES) + ["g_opt", "g_vec", "g_map"]
    pres = {"empty": [], "other": ["x"], "leaf": ["name:W0"], "both": ["x", "name:W0", "y"]}
    for p in probes:
        for inl in (0, 1):
            for on, ov in overrides(W)[:2]:
                for pn, pre in pres.items():
                    if p.startswith("g_") and pn in ("leaf", "both"):
                        continue

                    def run(I, p=p, inl=inl, ov=ov, pre=pre):
                        c = [components(W, [(W.S(n), single(W, t_string(W), False, W.S("pre:" + n))) for n in pre], [(W.S("sec"), sec_http(W))])]
                        before = W.term(c[0])
                        r = W.call(p + "::mention", Ref(c, 0), inl, Ref([params(W, *ov)], 0))
                        return W.term(r), before, W.term(c[0])

                    def oracle(v):
                        r, b, a = v
                        names = a["schemas"].keys()
                        dang = [x for x in links([r, a["schemas"]], []) if x not in [norm(k) for k in names]]
                        if dang:
                            return "references without a registered schema: %s" % dang
                        for k, x in b["schemas"].items:
                            y = a["schemas"].get(k)
                            if y is None:
                                return "registered schema %r was dropped" % (k,)
                            e = diff(y, x, "schema %r" % (k,))
                            if e:
                                return e
                        return diff(a["security_schemes"], b["security_schemes"], "security_schemes")
                    scenario(rep, W, "%s inline=%d overrides=%s registry=%s" % (p, inl, on, pn), run, oracle, A)
    import sampled_checks
    sampled_checks.registry(W, rep, "C01")


def c26(W, rep):
    """what is stored under the leaf's name is the leaf's own schema"""
    A = "opg::models::Components::mention_schema"
    seqs = {"w0": ["t_w0"]}
    for w in WRAPPERS + ["vec", "slice", "array2", "tuple2", "hashset", "vecdeque", "linkedlist", "binaryheap", "option", "option_box", "rc_option", "vec_option", "box_slice", "option_vec"]:
        seqs[w] = ["t_" + w]
        seqs[w + ",w0"] = ["t_" + w, "t_w0"]
        seqs["w0," + w] = ["t_w0", "t_" + w]
    for n, seq in seqs.items():
        for on, ov in overrides(W):
            for inl in (0, 1):
                def run(I, seq=seq, ov=ov, inl=inl):
                    c = [W.call("default_components")]
                    for p in seq:
                        W.call(p + "::mention", Ref(c, 0), inl, Ref([params(W, *ov)], 0))
                    return W.term(c[0])

                def oracle(v, n=n, inl=inl):
                    known = None
                    for a, x in v["schemas"].items:
                        nm = [i for i in range(10) if norm(W.S("name:W%d" % i)) == norm(a)]
                        if not nm:
                            return "unexpected registered name %r" % (a,)
                        e = diff(x, M_single(E("Boolean"), False, W.S("schema:W%d" % nm[0])), "schema of %r" % (a,))
                        if e and "option" in (n if inl else n.split(",")[0]):
                            # recorded finding: only the nullable flag differs, only when an Option comes first
                            if diff(x, M_single(E("Boolean"), True, W.S("schema:W%d" % nm[0])), "") is None:
                                known = known or Known("option-first-mention", e)
                                continue
                        if e:
                            return e
                    return known
                scenario(rep, W, "first mention through %s overrides=%s inline=%d" % (n, on, inl), run, oracle, A)
    import sampled_checks
    sampled_checks.registry(W, rep, "C26")


# ---------- C07 / C22
def c07(W, rep):
    import openapi
    for key, fn, build, expect in openapi.scenarios(W, THOROUGH):
        def run(I, fn=fn, build=build):
            r = W.call(fn, Ref([build()], 0))
            if not isinstance(r, Agg):
                raise Undecided("result")
            return ("Ok", r.f[0].d) if r.v == 0 else ("Err", None)
        scenario(rep, W, key, run, lambda v, expect=expect: ("serialization reports an error" if v[0] != "Ok" else None) or openapi.jdiff(v[1], expect(), ""), "impl Serialize (%s)" % fn)
    import sampled_checks
    sampled_checks.c07(W, rep)


def c22(W, rep):
    import openapi
    for key, fn, build, expect in openapi.scenarios(W, THOROUGH, brief=True):
        W.sub = {}

        def base(I, fn=fn, build=build):
            W.call(fn, Ref([build()], 0))
            return I.state.get("serops", 0)
        rs = W.I.explore(base, 4)
        if len(rs) != 1 or rs[0][0] != "ok":
            if rs[0][0] == "panic":
                rep.add(key, False, "serialization panics: %s" % rs[0][1])
            else:
                rep.undecided(key, str(rs[0][1]))
            continue
        n = rs[0][1]
        for k in range(1, n + 1):
            def run(I, fn=fn, build=build, k=k):
                I.state["fail_at"] = k
                r = W.call(fn, Ref([build()], 0))
                return r.v, I.state.get("after_fail", 0), I.state["serlog"][k - 1]

            def oracle(v):
                if v[0] != 1:
                    return "an output error at %s is reported as success" % v[2]
                if v[1]:
                    return "output continues after an error at %s" % v[2]
            scenario(rep, W, "%s error at operation %d" % (key, k), run, oracle, "impl Serialize (%s)" % fn, refine=False)
    import sampled_checks
    sampled_checks.c22(W, rep)
