"""C01, C02, C04-C07, C22, C26 on values of arbitrary shape (value_gen), beside the enumerated ones of core_checks."""
import re
from engine import *
from value_gen import Rand, DOCS, dangling, Skip
import core_checks as cc
import openapi


def N(quick, thorough):
    return thorough if cc.THOROUGH else quick


def lib_sizes(W):
    """every small integer constant of the library: a depth or a size it could single out"""
    if not hasattr(W, "_sizes"):
        j = W.I.d
        size = {i for i, t in enumerate(j["types"]) if t.get("k") in ("int", "uint") and t.get("n") in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize")}
        out = set()

        def ints(x):
            if isinstance(x, dict):
                for v in x.values():
                    ints(v)
            elif isinstance(x, list):
                if len(x) == 3 and x[0] == "k" and x[1] in size and isinstance(x[2], dict):
                    out.add(x[2].get("i"))
                elif len(x) >= 5 and x[0] == "switch" and x[4] in size:
                    out.update(v[0] for v in x[2])
                elif len(x) == 5 and x[0] == "bin" and x[2][0] == x[3][0] == "k":
                    pass
                else:
                    for v in x:
                        ints(v)
        for f in j["fns"]:
            if f["crate"] == "opg" and f["n"].startswith("opg::models::") and f.get("body"):
                ints(f["body"])
        W._sizes = sorted(x for x in out if isinstance(x, int) and 4 <= x <= 260)[:8]
    return W._sizes


def texts(a, b):
    """two atoms that may be the same text: neither is a key of a keyed section nor the name of a schema"""
    return all(x.startswith("v") and not re.search(r"k\d+$", x) and not x.startswith(("vpaths", "vproperties", "vs")) for x in (a, b))


class deep:
    """longer call chains than usual are expected here"""

    def __init__(self, W, n):
        self.W, self.n = W, n

    def __enter__(self):
        self.old = self.W.I.maxdepth
        self.W.I.maxdepth = self.n

    def __exit__(self, *a):
        self.W.I.maxdepth = self.old


# ---------- C02
def verify_oracle(v):
    c, r = v
    bad = dangling(c)
    if not bad:
        return diff(r, ("Ok", ()), "verify")
    if not (isinstance(r, tuple) and r[0] == "Err"):
        return "verify: %r although %s are not registered" % (r, bad)
    if norm(r[1]) not in bad:
        return "verify reported %r, the dangling references are %s" % (r[1], bad)


def unseen(t, out):
    """parts of an arbitrary value nothing was asked about, if a reference could be in them"""
    if isinstance(t, tuple) and t[:1] == ("any",):
        if not re.search(r"(description|String|Number|Integer|nullable|format|example|variants)$", t[1]) or t[1].endswith("type_description"):
            out.append(t[1])
    elif isinstance(t, D):
        for x in t.f.values():
            unseen(x, out)
    elif isinstance(t, E):
        for x in t.a:
            unseen(x, out)
    elif isinstance(t, (list, tuple)):
        for x in t:
            unseen(x, out)
    elif hasattr(t, "items") and not callable(t.items):
        for k, x in t.items:
            unseen(x, out)
    return out


def c02_any(W, rep):
    """registries of which nothing is known: every shape of up to two members per collection, as far as verification looks"""
    def oracle(v):
        c, r = v
        if r == ("Ok", ()) or isinstance(r, tuple) and r[0] == "Ok":
            bad, u = dangling(c), unseen(c, [])
            if bad:
                return "verified although %s are not registered" % bad
            if u:
                return "verified without a look at %s" % u[:3]
            return None
        bad = dangling(c)
        if norm(r[1]) not in bad:
            return "verify reported %r, the dangling references are %s" % (r[1], bad)
    for names, size, depth in ((("reg0",), 2, 0), (("reg0",), 1, 1), (("reg0", "reg1"), 1, 0)) + ((((("reg0",), 3, 0), (("reg0", "reg1"), 2, 0))) if cc.THOROUGH else ()):
        def run(I, names=names, size=size, depth=depth):
            I.state["lazy_depth"] = depth
            def comps():
                return cc.components(W, [(W.S(x), W.any("Model", x, names + ("bad",), size)) for x in names])
            c = [comps()]
            r = W.term(W.call("verify", Ref(c, 0)))
            return W.term(comps()), r
        scenario(rep, W, "%d arbitrary schemas, up to %d members, nested %d times" % (len(names), size, depth), run, oracle, "opg::models::Components::verify_schemas", refine=False, maxpaths=200000 if cc.THOROUGH else 30000)


def c02(W, rep):
    c02_any(W, rep)
    A = "opg::models::Components::verify_schemas"
    for seed in range(N(5000, 30000)):
        def run(I, seed=seed):
            import random
            q = random.Random("reg%d" % seed)
            n = q.randrange(1, 5)
            names = ["reg%d" % i for i in range(n)]
            R = Rand(W, "c02 %d" % seed, links=names * 6 + ["bad%d" % i for i in range(q.choice((0, 0, 1, 2)))], depth=q.choice((2, 3, 4, 5)) if seed % 2 else q.choice((2, 3)), tag="v", odd=0.0, rich=seed % 2 == 0)
            c = [cc.components(W, [(W.S(x), R.model()) for x in names])]
            t = W.term(c[0])
            return t, W.term(W.call("verify", Ref(c, 0)))
        scenario(rep, W, "sampled registry %d" % seed, run, verify_oracle, A, refine=seed < 40, alias=texts)
    # long chains of nesting, wide registries, wide schemas
    lens = sorted(set([6, 11, 20, 36, 70] + [s + d for s in lib_sizes(W) for d in (0, 1, 2)]))
    with deep(W, 6000):
        for n in lens:
            for kinds in (cc.KINDS, ["Array"], ["Properties"], ["OneOf"]):
                for bad in (True, False):
                    def run(I, n=n, kinds=kinds, bad=bad):
                        leaf = cc.link(W, W.S("bad" if bad else "reg0"))
                        ks = [kinds[i % len(kinds)] for i in range(n)]
                        c = [cc.components(W, [(W.S("reg0"), cc.single(W, cc.t_string(W))), (W.S("reg1"), cc.chain(W, ks, leaf, "only"))])]
                        return W.term(c[0]), W.term(W.call("verify", Ref(c, 0)))
                    scenario(rep, W, "%s below %d levels of %s" % ("dangling" if bad else "resolved", n, "/".join(kinds)), run, verify_oracle, A, refine=False)
        for n in lens:
            for what in ("entries", "properties", "alternatives"):
                for at in (n - 1, n // 2, None):
                    def run(I, n=n, what=what, at=at):
                        rs = [cc.link(W, W.S("bad" if i == at else "r0")) for i in range(n)]
                        if what == "entries":
                            es = [(W.S("r%d" % i), cc.refs_model(W, "Array", [r])) for i, r in enumerate(rs)]
                        else:
                            es = [(W.S("r0"), cc.refs_model(W, "Properties" if what == "properties" else "OneOf", rs))]
                        c = [cc.components(W, es)]
                        return W.term(c[0]), W.term(W.call("verify", Ref(c, 0)))
                    scenario(rep, W, "%d %s, dangling at %s" % (n, what, at), run, verify_oracle, A, refine=False)


# ---------- C04
def c04(W, rep):
    c04_any(W, rep)
    A = "opg::models::Components::add_model"
    for seed in range(N(300, 3000)):
        for fn in ("add_model", "mention_any"):
            def run(I, seed=seed, fn=fn):
                import random
                q = random.Random("c04 %d" % seed)
                R = Rand(W, "c04 %d" % seed, depth=q.choice((1, 2, 3)), tag="v", rich=seed % 3 == 0)
                present = [("n", "x", "y", "z")[i] for i in range(4) if q.random() < 0.6]
                c = [cc.components(W, [(W.S("n" if x == "n" else "m" + x), R.model()) for x in present], [(W.S(x), R.of("SecurityScheme")) for x in present])]
                before = W.term(c[0])
                new = [R.model() if fn == "add_model" else R.of("SecurityScheme")]
                tn = W.term(new[0])
                r = W.call(fn, Ref(c, 0), StringV(W.S("n")), new[0] if fn == "add_model" else Ref(new, 0))
                return before, W.term(c[0]), tn, None if fn == "add_model" else W.term(r)

            def oracle(v, fn=fn):
                b, a, new, r = v
                sec = "schemas" if fn == "add_model" else "security_schemes"
                oth = "security_schemes" if fn == "add_model" else "schemas"
                want = {norm(k): x for k, x in b[sec].items}
                want.setdefault(norm(W.S("n")), new)
                return diff(a[sec], want, sec) or diff(a[oth], b[oth], oth) or (None if r is None else diff(r, W.S("n"), "returned name"))
            scenario(rep, W, "%s on sampled entries %d" % (fn, seed), run, oracle, A if fn == "add_model" else "opg::models::Components::mention_security_scheme", refine=seed < 20)


def c04_any(W, rep):
    """entries of which nothing is known: every constructor the code looks for is tried"""
    for fn in ("add_model", "mention_any"):
        for present in ((), ("x",), ("n",), ("x", "n"), ("n", "x", "y")):
            ty = "Model" if fn == "add_model" else "SecurityScheme"

            def run(I, fn=fn, present=present, ty=ty):
                def comps():
                    ms = [(W.S(x), W.any("Model", "schema " + x)) for x in present]
                    ss = [(W.S(x), W.any("SecurityScheme", "scheme " + x)) for x in present]
                    return cc.components(W, ms, ss)
                c = [comps()]
                new = [W.any(ty, "new")]
                r = W.call(fn, Ref(c, 0), StringV(W.S("n")), new[0] if fn == "add_model" else Ref(new, 0))
                return W.term(comps()), W.term(c[0]), W.term(W.any(ty, "new")), None if fn == "add_model" else W.term(r)

            def oracle(v, fn=fn):
                b, a, new, r = v
                sec = "schemas" if fn == "add_model" else "security_schemes"
                oth = "security_schemes" if fn == "add_model" else "schemas"
                want = {norm(k): x for k, x in b[sec].items}
                want.setdefault(norm(W.S("n")), new)
                return diff(a[sec], want, sec) or diff(a[oth], b[oth], oth) or (None if r is None else diff(r, W.S("n"), "returned name"))
            scenario(rep, W, "%s on arbitrary entries %s" % (fn, ",".join(present) or "-"), run, oracle, "opg::models::Components::" + ("add_model" if fn == "add_model" else "mention_security_scheme"), maxpaths=4000)


# ---------- C05
def c05_any(W, rep):
    """every schema and every set of overrides, as far as the code tells them apart"""
    def run(I):
        p = [W.any("ContextParams", "params")]
        r = W.term(W.call("apply_params", W.any("Model", "schema"), Ref(p, 0)))
        return W.term(W.any("Model", "schema")), r, W.term(W.any("ContextParams", "params")), W.term(p[0])

    def known(x):
        if isinstance(x, tuple) and x[:1] == ("any",):
            raise Undecided("%s is never looked at" % (x[1],))
        return x

    def oracle(v):
        b, a, pb, pa = v
        known(b), known(pb), known(b["data"])
        d, nl, vs, f, e = known(pb["description"]), pb["nullable"], pb["variants"], pb["format"], pb["example"]
        if b["data"].n == "Single":
            nl = known(nl)
            mt = known(b["data"].a[0])
            td = known(mt["type_description"])
            if td.n in ("String", "Number", "Integer"):
                f, e = known(f), known(e)
                if td.n == "String":
                    vs = known(vs)
                    if f is None and e is None or not isinstance(known(td.a[0])["data"], tuple):
                        pass
                    else:
                        return "format or example override without a look at the schema"
                if f is None and e is None and (td.n == "String" and vs is None and isinstance(td.a[0]["data"], tuple) or isinstance(td.a[0], tuple)):
                    td = None  # nothing to do, nothing looked at
            else:
                td = None
            m = dict(b.f)
            if d is not None:
                m["description"] = d
            mt = dict(mt.f)
            if nl is not None:
                mt["nullable"] = bool(nl)
            if td is not None and td.n == "String":
                st = dict(td.a[0].f)
                if vs is not None:
                    st["variants"] = vs
                if not isinstance(st["data"], tuple):
                    st["data"] = D("ModelSimple", {k: (x if x is not None else st["data"][k]) for k, x in (("format", f), ("example", e))})
                mt["type_description"] = E("String", D("ModelString", st))
            elif td is not None:
                mt["type_description"] = E(td.n, D("ModelSimple", {k: (x if x is not None else td.a[0][k]) for k, x in (("format", f), ("example", e))}))
            m["data"] = E("Single", D("ModelType", mt))
            want = D("Model", m)
        else:
            want = D("Model", dict(b.f, **({"description": d} if d is not None else {})))
        return diff(a, want, "schema") or diff(pa, pb, "params")
    scenario(rep, W, "arbitrary schema and overrides", run, oracle, "opg::models::Model::apply_params", refine=False, maxpaths=30000)


def own_values(W, R, m, p):
    """a string schema with allowed values, and an override that has the same ones: all or some of them, in any order"""
    q = R.r
    vs = [W.S("val%d" % i) for i in range(q.randrange(1, 5))]
    sub = [x for x in vs if q.random() < 0.8]
    q.shuffle(sub)
    f, e = (W.S("fmt") if q.randrange(2) else None for _ in range(2))
    x = cc.single(W, cc.t_string(W, vs, f, e), bool(q.randrange(2)), W.S("d0") if q.randrange(2) else None)
    m.v, m.f[:] = x.v, x.f
    y = cc.params(W, *(W.S(z) if q.random() < 0.4 else None for z in ("d0",)), q.choice((None, False, True)), sub, *(W.S(z) if q.random() < 0.4 else None for z in ("fmt", "fmt")))
    p.f[:] = y.f


def c05(W, rep):
    c05_any(W, rep)
    for seed in range(N(400, 5000)):
        def run(I, seed=seed):
            R = Rand(W, "c05 %d" % seed, depth=1 + seed % 3, tag="v", rich=seed % 4 == 0)
            m = R.model()
            p = [R.of("ContextParams", 1)]
            if seed % 3 == 1:
                own_values(W, R, m, p[0])
            before, pb = W.term(m), W.term(p[0])
            r = W.call("apply_params", m, Ref(p, 0))
            return before, W.term(r), pb, W.term(p[0])

        def oracle(v):
            b, a, pb, pa = v
            nl = pb["nullable"]
            return diff(a, cc.expected_apply(W, b, pb["description"], nl if nl is None else bool(nl), pb["variants"], pb["format"], pb["example"]), "schema") or diff(pa, pb, "params")
        scenario(rep, W, "sampled schema and overrides %d" % seed, run, oracle, "opg::models::Model::apply_params", refine=seed < 60, alias=texts)


# ---------- C06
def merged(b, o, a, res):
    """target before, other, target after"""
    have, new = {norm(k): x for k, x in b["properties"].items}, {norm(k): x for k, x in o["properties"].items}
    ab, ao = b["additional_properties"], o["additional_properties"]
    if set(have) & set(new) or ab is not None and ao is not None:
        if res[0] != "Err":
            return "clash accepted: %r" % (res,)
        got = {norm(k): x for k, x in a["properties"].items}
        for k, x in have.items():
            if k not in got or diff(got[k], x):
                return "existing property %r was lost or replaced" % (k,)
        return diff(a["additional_properties"], ab, "additional properties") if ab is not None else None
    if res[0] != "Ok":
        return "merge without a clash rejected"
    have.update(new)
    g, w = set(repr(norm(x)) for x in a["required"]), set(repr(norm(x)) for x in b["required"] + o["required"])
    return diff(a["properties"], have, "properties") or diff(a["additional_properties"], ab if ab is not None else ao, "additional_properties") or \
        (None if g == w else "required: %s, expected %s" % (sorted(g), sorted(w)))


def is_object(t):
    return t["data"].n == "Single" and t["data"].a[0]["type_description"].n == "Object"


def obj_of(t):
    return t["data"].a[0]["type_description"].a[0]


def c06(W, rep):
    def draw(R, q, side):
        """an object schema; property names from a small common pool, required names from it too"""
        ps = [x for x in ("a", "b", "c", "d", "e") if q.random() < (0.5 if side == "l" else 0.25)]
        q.shuffle(ps)
        rq = [x for x in ("a", "b", "c", "d", "e", "f") if q.random() < 0.4]
        if side == "r" and q.random() < 0.5:
            rq = [x for x in rq if x in ps]
        q.shuffle(rq)
        if R is None:
            n = iter(range(100))
            ref = lambda: W.any("ModelReference", "%s%d" % (side, next(n)))
        else:
            ref = lambda: R.of("ModelReference", 2)
        return cc.obj(W, [(W.S(x), ref()) for x in ps], ref() if q.random() < 0.3 else None, [W.S(x) for x in rq])
    for seed in range(N(300, 4000)):
        def run(I, seed=seed):
            import random
            q = random.Random("c06 %d" % seed)
            R = Rand(W, "c06 %d" % seed, depth=2, tag="v", odd=0.0) if seed % 4 < 2 else None  # None: arbitrary schemas
            st = q.getstate()
            l, r = draw(R, q, "l"), draw(R, q, "r")
            b, o = W.term(l), W.term(r)
            if seed % 2:
                c = [l]
                res = W.call("merge", Ref(c, 0), r)
                if R is None:
                    q.setstate(st)
                    b, o = W.term(draw(R, q, "l")), W.term(draw(R, q, "r"))
                return W.term(res), b, o, W.term(c[0]), None
            c = [cc.single(W, W.en("ModelTypeDescription", "Object", l), bool(q.randrange(2)), W.S("da") if q.randrange(2) else None)]
            head = W.term(c[0])
            res = W.call("try_merge", Ref(c, 0), cc.single(W, W.en("ModelTypeDescription", "Object", r), bool(q.randrange(2)), W.S("db") if q.randrange(2) else None))
            if R is None:
                q.setstate(st)
                b, o = W.term(draw(R, q, "l")), W.term(draw(R, q, "r"))
            return W.term(res), b, o, W.term(c[0]), head

        def oracle(v):
            res, b, o, a, head = v
            if head is not None:
                if not is_object(a):
                    return "the target is no longer an object schema"
                e = diff(a["description"], head["description"], "description") or diff(a["data"].a[0]["nullable"], head["data"].a[0]["nullable"], "nullable")
                if e:
                    return e
                a = obj_of(a)
            return merged(b, o, a, res)
        scenario(rep, W, "sampled merge %d" % seed, run, oracle, "opg::models::ModelObject::merge", refine=seed < 60)
    for seed in range(N(150, 2000)):
        def run(I, seed=seed):
            R = Rand(W, "c06 any %d" % seed, depth=2, tag="v")
            c = [R.model()]
            b = W.term(c[0])
            o = R.model()
            ot = W.term(o)
            r = W.call("try_merge", Ref(c, 0), o)
            return W.term(r), b, ot, W.term(c[0])

        def oracle(v):
            res, b, o, a = v
            if is_object(b) and is_object(o):
                return merged(obj_of(b), obj_of(o), obj_of(a), res)
            return ("accepted" if res[0] != "Err" else None) or diff(a, b, "target")
        scenario(rep, W, "sampled try_merge %d" % seed, run, oracle, "opg::models::Model::try_merge", refine=seed < 30)
    for seed in range(N(150, 2000)):
        def run(I, seed=seed):
            import random
            q = random.Random("c06 add %d" % seed)
            R = Rand(W, "c06 add %d" % seed, depth=2, tag="v", odd=0.0)
            c = [draw(R, q, "l")]
            b = W.term(c[0])
            n = q.choice(("a", "b", "f"))
            x = R.of("ModelReference", 2)
            xt = W.term(x)
            req = q.randrange(2)
            r = W.call("add_property", Ref(c, 0), StringV(W.S(n)), x, req)
            return W.term(r), b, W.term(c[0]), n, xt, req

        def oracle(v):
            res, b, a, n, x, req = v
            have = {norm(k): y for k, y in b["properties"].items}
            if norm(W.S(n)) in have:
                return ("existing property accepted" if res[0] != "Err" else None) or diff(a, b, "object")
            if res[0] != "Ok":
                return "new property rejected"
            have[norm(W.S(n))] = x
            g, w = set(repr(norm(y)) for y in a["required"]), set(repr(norm(y)) for y in b["required"] + ([W.S(n)] if req else []))
            return diff(a["properties"], have, "properties") or diff(a["additional_properties"], b["additional_properties"], "additional") or \
                (None if g == w else "required: %s, expected %s" % (sorted(g), sorted(w)))
        scenario(rep, W, "sampled add_property %d" % seed, run, oracle, "opg::models::ModelObject::add_property", refine=seed < 30)


# ---------- C07 / C22
def sample(W, kind, seed):
    R = Rand(W, "%s %d" % (kind, seed), depth={"Opg": 4, "Components": 3, "PathValue": 3}.get(kind, 2 + seed % 3), tag="v", rich=seed % 3 == 2 and kind != "Opg")
    return R.of(kind)


def samples(quick):
    for kind, n in (("Model", 5), ("SecurityScheme", 1), ("Operation", 3), ("PathValue", 2), ("Components", 2), ("Opg", 3)):
        for seed in range(n * quick):
            yield kind, seed


def c07(W, rep):
    for kind, seed in samples(N(25, 250)):
        fn, expect = DOCS[kind]

        def run(I, kind=kind, seed=seed, fn=fn):
            v = [sample(W, kind, seed)]
            t = W.term(v[0])
            r = W.call(fn, Ref(v, 0))
            if not isinstance(r, Agg):
                raise Undecided("result")
            return t, ("Ok", r.f[0].d) if r.v == 0 else ("Err", None)

        def oracle(v, expect=expect):
            t, (st, d) = v
            try:
                want = expect(t)
            except Skip:
                return None
            return ("serialization reports an error" if st != "Ok" else None) or openapi.jdiff(d, want, "")
        scenario(rep, W, "sampled %s %d" % (kind, seed), run, oracle, "impl Serialize (%s)" % fn, refine=seed < 25, alias=texts)


def many(W, kind, seed):
    """one with large collections"""
    if seed < 1000:
        return sample(W, kind, seed)
    return Rand(W, "%s many %d" % (kind, seed), depth=3, tag="v", top=4 + seed % 3, odd=0.0, rich=seed % 2 == 0).of(kind)


def c22(W, rep):
    import itertools
    for kind, seed in itertools.chain(samples(N(3, 40)), [(k, 1000 + i) for k in ("Model", "Operation", "PathValue", "Components", "Opg") for i in range(N(1, 20))]):
        fn = DOCS[kind][0]
        W.sub = {}
        sample = many

        def base(I, kind=kind, seed=seed, fn=fn):
            W.call(fn, Ref([sample(W, kind, seed)], 0))
            return I.state.get("serops", 0)
        rs = W.I.explore(base, 4)
        key = "sampled %s %d" % (kind, seed)
        if len(rs) != 1 or rs[0][0] != "ok":
            if rs[0][0] == "panic":
                rep.add(key, False, "serialization panics: %s" % rs[0][1])
            else:
                rep.undecided(key, str(rs[0][1]))
            continue
        n = rs[0][1]
        lim = 40 if seed < 1000 else 150
        step = 1 if cc.THOROUGH or n < lim else n // lim + 1
        for k in range(1 + seed % step, n + 1, step):
            def run(I, kind=kind, seed=seed, fn=fn, k=k):
                I.state["fail_at"] = k
                r = W.call(fn, Ref([sample(W, kind, seed)], 0))
                return r.v, I.state.get("after_fail", 0), I.state["serlog"][k - 1]

            def oracle(v):
                if v[0] != 1:
                    return "an output error at %s is reported as success" % v[2]
                if v[1]:
                    return "output continues after an error at %s" % v[2]
            scenario(rep, W, "%s error at operation %d" % (key, k), run, oracle, "impl Serialize (%s)" % fn, refine=False)


# ---------- C01 / C26: types whose own schema is of any shape
class leaf:
    """the opaque types' own schemas are sampled ones, without references: those the result has are the library's"""

    def __init__(self, W, seed):
        self.W, self.seed = W, seed

    def __enter__(self):
        W = self.W
        if self.seed < 0:
            W.leaf_schema = lambda n: W.any("Model", "schema:" + n)
            return
        W.leaf_schema = lambda n: Rand(W, "leaf %s %s" % (n, self.seed), links=(), depth=self.seed % 3, tag="l" + n, odd=0.05).model()

    def __exit__(self, *a):
        del self.W.leaf_schema


def c09(W, rep):
    """wrappers around a type whose schema is of any shape"""
    for w in cc.WRAPPERS + ["option", "option_box", "rc_option"]:
        opt = "option" in w
        A = cc.anchor_of(W, w)
        for seed in range(-1, N(30, 300)):
            with leaf(W, seed):
                for how in ("schema", "mention", "with_params"):
                    def run(I, w=w, how=how, seed=seed):
                        c = [W.call("default_components")]
                        a = {"schema": (), "mention": (1, Ref([cc.params(W)], 0)), "with_params": (Ref([cc.params(W)], 0),)}[how]
                        r = W.term(W.call("t_%s::%s" % (w, how), Ref(c, 0), *a))
                        return r, W.term(W.leaf_schema("W0")), W.term(c[0])

                    def oracle(v, how=how, opt=opt):
                        r, s, c = v
                        if how == "mention":
                            if r.n != "Inline":
                                return "requested inline, but %r" % (r,)
                            r = r.a[0]
                        if opt:
                            if not isinstance(s, D) or not isinstance(s["data"], E):
                                return "nullability is not set on the schema: nothing of it is looked at"
                            if s["data"].n != "Single":
                                return None
                            if not isinstance(s["data"].a[0], D):
                                return "nullability is not set on the schema: nothing of its type is looked at"
                            s = D("Model", dict(s.f, data=E("Single", D("ModelType", dict(s["data"].a[0].f, nullable=True)))))
                        return diff(r, s, "schema") or diff(c["schemas"], {}, "registered")
                    scenario(rep, W, "%s %s around an arbitrary schema %d" % (w, how, seed), run, oracle, A, refine=False, maxpaths=2000)


PROBES = ["t_w0", "t_option", "t_box", "t_vec", "t_option_vec", "t_vec_option", "t_tuple2", "t_hashmap", "t_rc_option"]


def registry(W, rep, what):
    """C01: nothing dangling, nothing dropped; C26: what is registered for a type is its own schema"""
    A = "opg::models::Components::mention_schema"
    for seed in range(-3, N(25, 300)):
        with leaf(W, seed):
            for p in PROBES:
                if not W.has(p + "::mention"):
                    continue
                for inl in (0, 1):
                    def run(I, p=p, inl=inl, seed=seed):
                        R = Rand(W, "pre %s %d" % (p, seed), links=["pre0"] if seed % 3 else [], depth=2, tag="v")
                        if seed < 0:
                            def comps():
                                return cc.components(W, [(W.S("pre%d" % i), W.any("Model", "pre%d" % i)) for i in range(seed % 3)], [(W.S("sec"), W.any("SecurityScheme", "sec"))])
                            c = [comps()]
                        else:
                            c = [cc.components(W, [(W.S("pre%d" % i), R.model()) for i in range(seed % 3)], [(W.S("sec"), R.of("SecurityScheme"))])]
                            before = W.term(c[0])
                        r = W.term(W.call(p + "::mention", Ref(c, 0), inl, Ref([cc.params(W) if seed < 0 else R.of("ContextParams", 1)], 0)))
                        if seed < 0:
                            before = W.term(comps())
                        w = {"name:W%d" % i: W.term(W.leaf_schema("W%d" % i)) for i in range(10)}
                        return r, before, W.term(c[0]), w

                    def oracle(v, p=p, inl=inl):
                        r, b, a, own = v
                        known = None
                        if what == "C01":
                            bad = dangling(a)
                            names = [norm(k) for k in a["schemas"].keys()]
                            bad += [x for x in cc.links(r, []) if x not in names]
                            if bad:
                                return "references without a registered schema: %s" % bad
                        for k, x in b["schemas"].items:
                            y = a["schemas"].get(k)
                            if y is None:
                                return "registered schema %r was dropped" % (k,)
                            e = diff(y, x, "schema %r" % (k,))
                            if e:
                                return e
                        if what == "C26":
                            for n, s in own.items():
                                y = a["schemas"].get(norm(W.S(n)))
                                if y is None:
                                    continue
                                e = diff(y, s, "schema of %s" % n)
                                if e and "option" in p and isinstance(s, D) and isinstance(s["data"], E) and s["data"].n == "Single":
                                    f = dict(s.f)
                                    mt = dict(s["data"].a[0].f, nullable=True)
                                    f["data"] = E("Single", D("ModelType", mt))
                                    if diff(y, D("Model", f), "") is None:
                                        known = known or Known("option-first-mention", e)
                                        continue
                                if e:
                                    return e
                        return known or diff(a["security_schemes"], b["security_schemes"], "security_schemes")
                    scenario(rep, W, "%s inline=%d own schemas %d" % (p, inl, seed), run, oracle, A, refine=seed < 5, maxpaths=1500)
