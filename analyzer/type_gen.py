"""Witness programs for describe_type! and the schemas they must denote (C12)."""
import itertools, random
from world import E, Any
import macro_gen
from macro_gen import single, simple, SHADOW, Gen, q, ident_ok


class G(Gen):
    def __init__(self):
        Gen.__init__(self, None)


def opt(g, k, on, stem=None, raw=False):
    if not on:
        return "", None
    if raw:
        g.n += 1
        return "%s: %d " % (k, g.n), str(g.n)
    l = g.lit((stem or k) + " ")
    return '%s: %s ' % (k, q(l)), l


def leaf(g, kind, bits, nvar=None, raw=False):
    """text after the arrow included, and the model"""
    d, dv = opt(g, "description", bits & 1)
    if kind == "boolean":
        return "boolean => { %s}" % d, single(E("Boolean"), description=dv)
    f, fv = opt(g, "format", bits & 2)
    e, ev = opt(g, "example", bits & 4, raw=raw)
    if kind == "string":
        v, vv = "", None
        if nvar is not None:
            vv = [g.lit("variant ") for _ in range(nvar)]
            v = "variants: [%s]" % ", ".join(q(x) for x in vv)
        return "string => { %s%s%s%s }" % (d, f, e, v), single(E("String", {"variants": vv, "data": simple(fv, ev)}), description=dv)
    return "%s => { %s%s%s}" % (kind, d, f, e), single(E(kind.capitalize(), simple(fv, ev)), description=dv)


def raw_model(g):
    n = "m%d" % len(g.params)
    g.params.append((n, "opg::models::Model", "model"))
    return "raw_model => " + n, ("MODEL", n)


def raw_type(g, d):
    n = "d%d" % len(g.params)
    g.params.append((n, "opg::models::ModelData", "data"))
    t, v = opt(g, "description", d)
    return "raw_type => { %sident: %s }" % (t, n), {"description": v, "data": ("DATA", n)}


def link_lit(g):
    l = g.lit("Name")
    return 'link => %s' % q(l), E("Link", l)


def link_id(g):
    n = "l%d" % len(g.params)
    g.params.append((n, "&str", "str"))
    return "link => " + n, E("Link", ("S", n))


def value(x):
    """a model as property value"""
    t, m = x
    return (t, m) if isinstance(m, E) and m.n == "Link" else (t, E("Inline", m))


def array(g, item, d=False):
    t, v = opt(g, "description", d)
    it, iv = value(item)
    return "array => { %sitems: (%s) }" % (t, it), single(E("Array", {"items": iv}), description=v)


def obj(g, props, d=False):
    t, v = opt(g, "description", d)
    ps, req, txt = {}, [], []
    for i, (r, x) in enumerate(props):
        # declared in an order that is not the sorted one
        n = g.ident("zmaykb"[i % 6] + "_p", ps)
        it, iv = value(x)
        ps[n] = iv
        if r:
            req.append(n)
        txt.append("%s%s: (%s)" % (n, "[required]" if r else "", it))
    return "object => { %sproperties: { %s } }" % (t, " ".join(txt)), single(
        E("Object", {"properties": ps, "additional_properties": None, "required": req}), description=v)


LEAVES = [lambda g: leaf(g, "string", 7, 2), lambda g: leaf(g, "number", 3), lambda g: leaf(g, "integer", 5), lambda g: leaf(g, "boolean", 1), lambda g: leaf(g, "string", 0),
          raw_model, lambda g: raw_type(g, True), link_lit, link_id, lambda g: leaf(g, "integer", 0)]


def build(thorough=False):
    out = []

    def emit(name, f, focus, given=None, names=None, rng=None):
        g = G()
        g.rng = rng
        g.given = None if given is None else [given, 0]
        g.names = None if names is None else [names, 0]
        t, m = f(g)
        text = "pub fn %s(%s) -> opg::models::Model { opg::describe_type!(%s) }\n" % (name, ", ".join("%s: %s" % (a, b) for a, b, _ in g.params), t)
        out.append((name, text, g.params, m, focus))
    for bits in range(8):
        for nv in (None, 0, 1, 2, 3):
            emit("string_%d_%s" % (bits, nv), lambda g: leaf(g, "string", bits, nv), "string")
        for k in ("number", "integer"):
            emit("%s_%d" % (k, bits), lambda g: leaf(g, k, bits), k)
        emit("raw_lit_%d" % bits, lambda g: leaf(g, "integer", bits, raw=True), "non-string literal")
    for d in (0, 1):
        emit("boolean_%d" % d, lambda g: leaf(g, "boolean", d), "boolean")
        emit("raw_type_%d" % d, lambda g: raw_type(g, d), "raw type")
        emit("object_empty_%d" % d, lambda g: obj(g, [], d), "empty object")
        for i, l in enumerate(LEAVES):
            emit("array_%d_%d" % (d, i), lambda g: array(g, l(g), d), "array")
            for r in (0, 1):
                emit("object1_%d_%d_%d" % (d, i, r), lambda g: obj(g, [(r, l(g))], d), "object")
    emit("raw_model", raw_model, "raw model")
    for (i, a), (j, b) in itertools.product(enumerate(LEAVES), repeat=2):
        for rs in ([(0, 1), (1, 0)] if not thorough else itertools.product((0, 1), repeat=2)):
            emit("object2_%d_%d_%d%d" % (i, j, *rs), lambda g: obj(g, [(rs[0], a(g)), (rs[1], b(g))]), "object")
    for rs in itertools.product((0, 1), repeat=4):
        emit("required_%d%d%d%d" % rs, lambda g: obj(g, [(r, LEAVES[i](g)) for i, r in enumerate(rs)]), "required flags")
    for i, l in enumerate(LEAVES):
        emit("nest_aa_%d" % i, lambda g: array(g, array(g, l(g), True)), "nested arrays")
        emit("nest_ao_%d" % i, lambda g: array(g, obj(g, [(1, l(g)), (0, LEAVES[(i + 3) % 10](g))], True)), "array of objects")
        emit("nest_oo_%d" % i, lambda g: obj(g, [(1, obj(g, [(0, l(g)), (1, LEAVES[(i + 1) % 10](g))], True)), (0, LEAVES[(i + 2) % 10](g)), (1, obj(g, [(1, l(g))]))], True), "nested objects")
        emit("nest_oao_%d" % i, lambda g: obj(g, [(0, array(g, obj(g, [(1, l(g))])))]), "object of arrays of objects")
    for n in (5, 9, 14, 20):
        emit("many_%d" % n, lambda g: obj(g, [(i % 3 == 0, LEAVES[i % 10](g)) for i in range(n)], True), "many properties")
        emit("variants_%d" % n, lambda g: leaf(g, "string", 0, n), "many variants")
    W = macro_gen.WORDS
    for i, w in enumerate(macro_gen.STRING_SHAPES + W + ["zq%svr" % w for w in W if w.strip()] + ["%s%s" % (w, w) for w in W if w.strip()]):
        id = w if ident_ok(w) else ["type", "match", "ID", "userID", "__x", "A"][i % 6]
        emit("word_%d" % i, lambda g: obj(g, [(1, leaf(g, "string", 7, 2)), (0, leaf(g, "number", 7)), (1, leaf(g, "integer", 7)), (0, leaf(g, "boolean", 1)), (1, raw_type(g, True)),
                                              (0, link_lit(g)), (1, array(g, link_lit(g), True))], True), "names %r" % w, given=w, names=id)
    for i in range(4000 if thorough else 500):
        r = random.Random("type %d" % i)
        emit("sampled_%d" % i, lambda g: sampled(g, r, r.choice((1, 2, 3))), "sampled schema", rng=r)
    return out


def sampled(g, r, d):
    k = r.randrange(8) if d > 0 else r.randrange(5)
    if k >= 6:
        return array(g, member(g, r, d - 1), r.random() < 0.5)
    if k >= 5 or d > 1:
        return obj(g, [(r.random() < 0.5, member(g, r, d - 1)) for _ in range(r.choice((0, 1, 2, 2, 3, 4)))], r.random() < 0.5)
    if k < 4:
        kind = ("string", "number", "integer", "boolean")[k]
        return leaf(g, kind, r.randrange(8), r.choice((None, 0, 1, 2, 3, 4)), raw=kind == "integer" and r.random() < 0.3)
    return raw_model(g) if r.random() < 0.5 else raw_type(g, r.random() < 0.5)


def member(g, r, d):
    return r.choice((link_lit, link_id))(g) if r.random() < 0.3 else sampled(g, r, d)


HEADER = '''//! Generated witness: every form of describe_type!. Never executed.
#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]
pub mod clean {
%s
%s}
'''


def crate_text(wit):
    return HEADER % (SHADOW, "".join(w[1] for w in wit))
