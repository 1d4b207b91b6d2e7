"""C13, C15-C18, C20: schemas of derived types compared with what the item spells."""
from engine import *
from macro_checks import mdiff
from core_checks import params as ctx_params
import derive_gen as dg
from build import BuildError
from derive_gen import Env

A = "opg_derive/src/opg.rs"


def strip(t, keep, path=()):
    """replace what the property does not speak about by a wildcard"""
    if isinstance(t, E):
        if t.n in ("Link",) and "refs" not in keep:
            return Any
        return E(t.n, *[strip(x, keep, path + (t.n,)) for x in t.a])
    if isinstance(t, list):
        return [strip(x, keep, path) for x in t]
    if isinstance(t, dict):
        out = {}
        for k, v in t.items():
            if path and path[-1] == "properties*":
                out[k] = strip(v, keep, path[:-1])
            elif k in ("description", "format", "nullable") and "values" not in keep:
                out[k] = Any
            elif k == "example" and "values" not in keep and "examples" not in keep:
                out[k] = Any
            elif k == "required":
                out[k] = Perm(v) if "required" in keep else Any
            elif k == "properties":
                out[k] = strip(v, keep, path + ("properties*",))
            else:
                out[k] = strip(v, keep, path)
        return out
    return t


class Perm:
    """the same members in any order, each once"""
    def __init__(self, l):
        self.l = l

    def check(self, got, path):
        g, w = [norm(x) for x in got], [norm(x) for x in self.l]
        if any(x is Top for x in g):
            raise Undecided("⊤ in %s" % path)
        if sorted(map(repr, g)) != sorted(map(repr, w)):
            return "%s: %r, expected %r" % (path, g, w)
        return None


KEEP = {
    "C13": {"required"},
    "C14": {"required"},
    "C15": {"refs", "required"},
    "C16": {"required"},
    "C17": {"refs", "required", "examples"},
    "C18": {"values", "refs", "examples"},
    "C19": {"refs", "values", "examples", "required"},
    "C20": {"refs", "values", "examples", "required"},
}


def expect_schema(W, t):
    env = Env(W)
    s = dg.schema(t, env)
    return s, env.reg


def expect_mention(W, t, inline, p):
    env = Env(W)
    ty = dg.derived(t, path="x")
    r = env.mention(ty, inline, p)
    return r, env.reg


def full(t):
    return not t.fam.startswith(("words/", "attrs/", "names/", "preds/", "skip/", "required/"))


def run_items(W, rep, prop, items, names, mention=False, registry=True, sel=lambda t: True):
    keep = KEEP[prop]
    for t in items:
        if not sel(t):
            continue
        mod = "types::" + t.mod + "::"
        anchor = "derive(OpgModel) on: %s" % t.text()[:400]

        def run(I, mod=mod):
            c = [W.call("default_components")]
            m = W.call(mod + "schema", Ref(c, 0))
            return W.term(m), W.term(c[0])

        def oracle(v, t=t):
            s, reg = expect_schema(W, t)
            r = mdiff(v[0], strip(s, keep), "schema of " + t.ident)
            if r or not registry:
                return r
            return reg_diff(v[1]["schemas"], reg, keep)
        scenario(rep, W, "%s %s %s: schema" % (t.fam, t.mod, t.ident), run, oracle, anchor, distinct=names)
        if not mention:
            continue

        def oname(v, t=t):
            return mdiff(v, None if t.a.inline else dg.raw(t.ident), "type_name")
        scenario(rep, W, "%s %s %s: name" % (t.fam, t.mod, t.ident), lambda I, mod=mod: W.term(W.call(mod + "name")), oname, anchor, distinct=names)
        for inl in (0, 1):
            for on in ("none", "all"):
                if not full(t) and inl == (on == "none"):
                    continue

                def runm(I, mod=mod, inl=inl, on=on):
                    c = [W.call("default_components")]
                    p = [ctx_params(W, *((None,) * 5 if on == "none" else (W.S("D"), True, None, W.S("F"), W.S("E"))))]
                    r = W.call(mod + "mention", Ref(c, 0), inl, Ref(p, 0))
                    return W.term(r), W.term(c[0])

                def oracle(v, t=t, inl=inl, on=on):
                    p = dg.P0 if on == "none" else dict(desc=W.S("D"), nullable=True, format=W.S("F"), example=W.S("E"))
                    r, reg = expect_mention(W, t, bool(inl), p)
                    return mdiff(v[0], strip(r, keep), "reference to " + t.ident) or reg_diff(v[1]["schemas"], reg, keep)
                scenario(rep, W, "%s %s %s: mention inline=%d overrides=%s" % (t.fam, t.mod, t.ident, inl, on), runm, oracle, anchor, distinct=names)


def reg_diff(got, reg, keep):
    g = {norm(k) for k in got.keys()}
    w = {norm(k) for k in reg}
    if g != w:
        return "registered schemas %s, expected %s" % (sorted(map(repr, g)), sorted(map(repr, w)))
    if "values" in keep:
        return mdiff(got, strip(reg, keep, ("properties*",)), "registered")
    return None


def degenerate(t):
    """nothing of the item, or of one of its variants, is ever written: whether it compiles is C19's subject"""
    def empty(ms):
        return all(m.a.skipped for m in ms)
    return empty(t.members) or t.kind == "enum" and any(v.shape in ("struct", "tuple") and empty(v.fields) for v in t.members)


def witness(cx, rep, name, items, what):
    """compile the items; those that do not compile are reported one by one and left out"""
    import re
    items = list(items)
    for attempt in range(6):
        text = dg.crate_text(items)
        try:
            return cx.generated(name, text, World, what), items
        except BuildError as e:
            lines = text.splitlines()
            bad = {}
            for m in re.finditer(r"^(error[^\n]*)\n(?:(?!error|warning)[^\n]*\n)*?\s*--> src/lib\.rs:(\d+)", e.log, re.M):
                i = int(m[2]) - 1
                while i >= 0 and not lines[i].startswith("pub mod m"):
                    i -= 1
                if i >= 0:
                    bad.setdefault(re.match(r"pub mod (\w+)", lines[i])[1], m[1])
            if not bad or attempt == 5:
                raise
            keep = []
            for t in items:
                if t.mod not in bad:
                    keep.append(t)
                elif t.fam.startswith("words/") or degenerate(t):
                    rep.notes.append("left out, does not compile: %s (%s)" % (t.text()[:120], bad[t.mod]))
                else:
                    rep.add("%s %s %s: compiles" % (t.fam, t.mod, t.ident), False, "%s: %s" % (bad[t.mod], t.text()[:400]), A)
            gone = {t.mod for t in items} - {t.mod for t in keep}
            # items that use one of the missing ones go with it
            items = [t for t in keep if not any("::%s::" % m in t.text() for m in gone)]


def check(prop, fams, mention=False, registry=True):
    def f(cx, rep):
        words = cx.derive_words()
        dg.DERIVE[0] = "serde::Serialize, " if cx.thorough else "wattr::Serde, "
        items = dg.build(fams, words, cx.thorough, cx.derive_ints())
        name = "wd_" + "_".join(fams)
        W, items = witness(cx, rep, name, items, "derived types: %s" % ", ".join(fams))
        names = {dg.raw(t.ident) for t in items}  # distinct types have distinct names here; equal names are C26's subject
        parallel(rep, W, items, lambda r, part: run_items(W, r, prop, part, names, mention, registry))
        rep.visited |= {(name, x) for x in W.I.visited}
    f.__name__ = "derive " + " ".join(fams)
    return f


def ignored(cx, rep):
    """C19: serde attributes outside the schema leave it as it is"""
    import reject_gen
    W, items = witness(cx, rep, "wd_ignored", reject_gen.ignored(), "derived types with serde attributes outside the schema")
    names = {dg.raw(t.ident) for t in items}
    parallel(rep, W, items, lambda r, part: run_items(W, r, "C19", part, names))
    rep.visited |= {("wd_ignored", x) for x in W.I.visited}
