"""C21: no source of nondeterminism reaches a document or the code the derive generates.

Two rules.  Order: every serialization, every describe_api! document and every registry operation is evaluated under two
opposite iteration orders of hash containers; the emitted sequence must be the same, and keyed sections must come out
sorted.  Effects: no function of the library, of the derive or of generated code calls into clocks, the environment,
random numbers, threads, addresses or mutable statics; hash containers of the derive, whose code cannot be evaluated as a
whole, may only be iterated into consumers that do not depend on the order."""
import re
from engine import *
import natives
import openapi

DENY = [
    (r"^std::time::|::(SystemTime|Instant)::|^chrono::.*::(now|today)$", "reads a clock"),
    (r"^std::env::|^std::process::|^std::fs::|^std::net::|^std::io::stdio::(stdin|_print|_eprint)?$|^std::os::", "depends on the environment"),
    (r"^(rand|getrandom|fastrand|oorandom)::|RandomState::new$|RandomState as core::hash::BuildHasher|RandomState as core::default::Default|DefaultHasher|^uuid::.*::new_v", "depends on randomness"),
    (r"^std::thread::(?!.*panicking$)|LocalKey", "depends on the thread"),
    (r"Atomic\w*(::|>::|<.*>::)(fetch_\w+|store|swap|compare_\w+|load)$|^std::sync::.*(Mutex|RwLock)::|(Mutex|RwLock)::(lock|write|read|try_lock)$", "keeps state between documents"),
    (r" as core::fmt::Pointer>::fmt$|::(expose_provenance|expose_addr|addr)$|^core::ptr::.*::addr$", "depends on an address"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
HASHIT = re.compile(r"^<?&?(mut )?(std::collections::hash::(map|set)::Hash(Map|Set)|hashbrown::.*Hash(Map|Set))( as core::iter::traits::collect::IntoIterator>)?::(iter|iter_mut|into_iter|keys|into_keys|values|values_mut|into_values|drain|union|difference|intersection|symmetric_difference|retain|extract_if)$")
OKNAME = re.compile(r"::(any|all|count|max|min|sum|product|is_empty|len|contains|is_subset|is_disjoint|is_superset|size_hint|eq|drop|max_by_key|min_by_key)$")
EMIT = re.compile(r"::(push|push_back|push_str|extend|insert|append|to_tokens|append_all|write_str|write_fmt|push_value|push_punct)$")


def own(f, crates):
    return f["crate"] in crates


def consts(x, out):
    if isinstance(x, dict):
        if "static" in x and x.get("mut"):
            out.append(x["static"])
        for v in x.values():
            consts(v, out)
    elif isinstance(x, list):
        for v in x:
            consts(v, out)


def effects(rep, j, crates, label):
    """one obligation per function of the given crates"""
    fns = j["fns"]
    n = 0
    for f in fns:
        if not own(f, crates) or not f.get("body"):
            continue
        n += 1
        bad = []
        for b in f["body"]["blocks"]:
            if not b:
                continue
            t = b[1]
            if t[0] == "call" and isinstance(t[1], int):
                g = fns[t[1]]
                for rx, why in DENY:
                    if rx.search(g["n"]):
                        bad.append("%s %s: calls %s" % (t[-1], why, g["n"]))
            st = []
            consts(b, st)
            for s in st:
                if not s.startswith(("core::", "alloc::", "proc_macro", "syn::", "quote::")) and "DUMMY" not in s:
                    bad.append("%s: mutable static %s keeps state between documents" % (f["span"], s))
        if bad:
            rep.add("effects of %s (%s)" % (f["n"], label), False, "; ".join(bad[:4]), f["span"])
        else:
            rep.add("effects of %s (%s)" % (f["n"], label), True)
    return n


def hash_flow(rep, j, crates, label):
    """hash containers of code that is not evaluated: consumers of their iteration"""
    fns, types = j["fns"], j["types"]

    def mentions_hash(t, depth=0):
        ty = types[t]
        if depth > 8:
            return False
        if ty["k"] == "adt" and re.match(r"(std::collections::hash|hashbrown)::.*::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Union|Difference|Intersection|SymmetricDifference)$", ty.get("p", "")):
            return True
        return any(mentions_hash(a, depth + 1) for a in ty.get("a", []) if isinstance(a, int))
    for f in fns:
        if not own(f, crates) or not f.get("body"):
            continue
        blocks = f["body"]["blocks"]
        src = [(i, b[1]) for i, b in enumerate(blocks) if b and b[1][0] == "call" and isinstance(b[1][1], int) and HASHIT.search(fns[b[1][1]]["n"])]
        key = "hash iteration in %s (%s)" % (f["n"], label)
        if not src:
            rep.add(key, True)
            continue
        allcalls = [(i, b[1], fns[b[1][1]]) for i, b in enumerate(blocks) if b and b[1][0] == "call" and isinstance(b[1][1], int)]
        sorts = any(re.search(r"::sort(_\w+)?$|BTree(Map|Set)", g["n"]) for _, _, g in allcalls)
        verdict, why = "holds", ""
        for i, t, g in allcalls:
            uses = any(mentions_hash(x) for x in g.get("args", []) if isinstance(x, int))
            if not uses or HASHIT.search(g["n"]):
                continue
            rt = types[g["ret"]]
            name = g["n"]
            if mentions_hash(g["ret"]) and not name.endswith("::next"):
                continue  # an adapter
            if OKNAME.search(name):
                continue
            p = rt.get("p", "")
            if re.search(r"BTree(Map|Set)$|Hash(Map|Set)$", p) or re.search(r"(BTree|Hash)(Map|Set) as .*::(extend|from_iter)$", name):
                continue
            if name.endswith("::next"):
                body = loop(blocks, i)
                em = [x for k, x, h in allcalls if k in body and EMIT.search(h["n"]) and not re.search(r"(BTree|Hash)(Map|Set)", h["n"])]
                if not em:
                    continue
                verdict = "undecided" if sorts else "violated"
                why = "%s: the loop over a hash container emits in its order (%s)" % (t[-1], em[0][-1])
            else:
                verdict = "undecided" if sorts else "violated"
                why = "%s: the order of a hash container reaches %s" % (t[-1], name)
            if verdict == "violated":
                break
        if verdict == "undecided":
            rep.undecided(key, why)
        else:
            rep.add(key, verdict == "holds", why, f["span"])


def succ(b):
    t = b[1]
    out = []

    def ints(x):
        for y in x:
            if isinstance(y, list):
                ints(y)
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if t[0] == "call":
        return [t[4]] if isinstance(t[4], int) else []
    if t[0] in ("drop", "assert"):
        return [x for x in t[2:3] if isinstance(x, int)]
    return out


def loop(blocks, at):
    """blocks on a cycle through block `at`"""
    reach = {}

    def go(s):
        seen, todo = set(), [s]
        while todo:
            x = todo.pop()
            for y in succ(blocks[x]) if blocks[x] else []:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    fwd = go(at)
    return {x for x in fwd if at in go(x)}


def orders(rep, W, key, run, anchor):
    """the same result under both hash orders"""
    out = []
    hashed = False
    for rev in (False, True):
        natives.HASH_REV[0] = rev
        try:
            rs = W.I.explore(run, 8)
        finally:
            natives.HASH_REV[0] = False
        hashed = hashed or bool(W.I.state.get("hash_iter"))
        out.append(rs)
    if any(st not in ("ok", "panic") for rs in out for st, *_ in rs):
        st, v = [(st, v) for rs in out for st, v, *_ in rs if st not in ("ok", "panic")][0]
        rep.undecided(key, "%s %s" % (st, v))
        return
    a, b = [[(st, repr(v)) for st, v, *_ in rs] for rs in out]
    d = ""
    if a != b:
        x, y = str(a), str(b)
        k = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), 0)
        d = "two iteration orders of a hash container give different output: ...%s... and ...%s..." % (x[max(0, k - 60):k + 80], y[max(0, k - 60):k + 80])
    rep.add(key, a == b, d, anchor)


def c21(cx, rep):
    import macro_gen, macro_checks
    W = cx.world()
    # serialization
    for key, fn, build, expect in openapi.scenarios(W, False):
        def run(I, fn=fn, build=build):
            r = W.call(fn, Ref([build()], 0))
            return r.v, I.state.get("serlog"), dump(r.f[0].d) if r.v == 0 and hasattr(r.f[0], "d") else None
        orders(rep, W, "order of " + key, run, "impl Serialize (%s)" % fn)
    effects(rep, W.I.d, ("opg", "wcore"), "library")
    rep.visited |= {("wcore", x) for x in W.I.visited}
    # documents
    macro_gen.set_words(cx.lib_words())
    wit = macro_gen.build(False)
    MW = cx.generated("wmacro", macro_gen.crate_text(wit), macro_checks.MWorld, "describe_api! expansions")
    for name, text, params, doc, focus in wit:
        orders(rep, MW, "order of document %s (%s)" % (name, focus), lambda I, name=name, params=params: dump(MW.term(MW.call("clean::" + name, *[macro_checks.arg(MW, *p) for p in params]))), "describe_api! in clean::%s" % name)
    effects(rep, MW.I.d, ("opg", "wmacro"), "expansions")
    sorted_sections(rep, MW, W)
    # the derive
    dj = cx.derive_dump()
    effects(rep, dj, ("opg_derive",), "derive")
    hash_flow(rep, dj, ("opg_derive",), "derive")
    # generated implementations
    import derive_gen as dg, derive_checks
    dg.DERIVE[0] = "wattr::Serde, "
    items = [t for i, t in enumerate(dg.build(("enums",), (), False)) if t.fam == "helper" or i % 7 == 0]
    items = dg.closed(items)
    DW, items = derive_checks.witness(cx, rep, "wd_effects", items, "derived types")
    effects(rep, DW.I.d, ("opg", "wd_effects"), "generated")
    for t in items:
        def run(I, t=t):
            c = [DW.call("default_components")]
            m = DW.call("types::" + t.mod + "::schema", Ref(c, 0))
            return dump(DW.term(m)), dump(DW.term(c[0]))
        orders(rep, DW, "order of derived schema %s %s" % (t.mod, t.fam), run, "derive(OpgModel) on: %s" % t.text()[:300])


def dump(t):
    """term with its order spelt out"""
    if isinstance(t, dict):
        return [(repr(k), dump(v)) for k, v in t.items()]
    if isinstance(t, M):
        return ("M", [(repr(norm(k)), dump(v)) for k, v in t.items])
    if isinstance(t, E):
        return (t.n, [dump(x) for x in t.a])
    if isinstance(t, D):
        return [(k, dump(t[k])) for k in t.f] if hasattr(t, "f") else repr(t)
    if isinstance(t, (list, tuple)):
        return [dump(x) for x in t]
    return repr(norm(t))


def sorted_sections(rep, MW, W):
    """keyed sections with known keys come out in key order, whatever order they were filled in"""
    G = openapi.Gen(W)
    for key, fn, build, path in openapi.keyed(W):
        def run(I, fn=fn, build=build):
            r = W.call(fn, Ref([build()], 0))
            if r.v != 0:
                raise Undecided("serialization error")
            return r.f[0].d

        def oracle(v, path=path):
            for p in path:
                v = at(v, p)
            ks = keys(v)
            if len(ks) < 3:
                raise Undecided("keys %r" % (ks,))
            return None if ks == sorted(ks) else "keys are written in the order %s" % ks
        for rev in (False, True):
            natives.HASH_REV[0] = rev
            try:
                scenario(rep, W, "sorted: %s%s" % (key, " (other hash order)" if rev else ""), run, oracle, "impl Serialize (%s)" % fn, refine=False)
            finally:
                natives.HASH_REV[0] = False


def at(v, k):
    for a, b in entries(v):
        if norm(a) == k:
            return b
    raise Undecided("no key %r" % (k,))


def entries(v):
    if isinstance(v, dict):
        return list(v.items())
    if isinstance(v, M):
        return v.items
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ("map", "obj"):
        return v[1]
    raise Undecided("not a map: %r" % (v,))


def keys(v):
    out = []
    for a, _ in entries(v):
        a = norm(a)
        out.append(a if isinstance(a, (str, int)) else repr(a))
    return out
