"""C01, C03, C26 on graphs of derived types: what a sequence of requests leaves in the registry is judged
against the types themselves (each type's schema requested alone), not against a model of the derive."""
import random
from engine import *
from core_checks import links, params, M_single
from macro_checks import mdiff

KINDS = ("struct", "tuple", "newtype", "external", "untagged", "internal", "adjacent")
# wrappers that may close a cycle
WRAPS = ("Box<%s>", "Vec<%s>", "Option<Box<%s>>", "std::collections::BTreeMap<String, %s>", "std::rc::Rc<%s>", "Vec<Option<%s>>", "(u8, Vec<%s>)",
         "Box<[%s]>", "std::collections::HashMap<String, Vec<%s>>", "&'static %s", "std::sync::Arc<%s>", "Box<(%s, String)>", "Vec<(%s,)>", "std::cell::RefCell<Vec<%s>>", "[Box<%s>; 3]")
EMBED = ("Box<%s>", "Option<Box<%s>>", "std::rc::Rc<%s>", "&'static %s", "std::sync::Arc<%s>", "%s")  # these do not mention the inner type by themselves
OVER = ("", "", '#[opg("a field")] ', "#[opg(nullable)] ", '#[opg(format = "F")] ', '#[opg(optional)] ', '#[opg("both", nullable, example = "E")] ')


class Mod:
    def __init__(self, name, what):
        self.name, self.what, self.types, self.text, self.strict, self.roots = name, what, [], "", True, []
        self.known = {}


def one(R, name, n, cyclic=True, strict=True):
    m = Mod(name, "%d types%s%s" % (n, ", cyclic" if cyclic else "", "" if strict else ", embedded mentions"))
    m.strict = strict
    names = R.sample(["Alpha", "Beta", "Gamma", "Delta", "Eps", "alpha", "Alpha2", "AlphaBeta", "Alpha_"], n)
    out = ""
    inl = [not strict and i > 0 and R.random() < 0.2 for i in range(n)]  # containers that are always embedded

    def ty(i):
        """-> (type text, attributes)"""
        if R.random() < 0.25:
            return R.choice(("String", "u32", "crate::W%d" % R.randrange(10), "Vec<crate::W%d>" % R.randrange(10), "Option<crate::W1>", "Option<bool>")), R.choice(OVER)
        hi = n if cyclic else i
        if hi == 0:
            return "crate::W%d" % R.randrange(10), R.choice(OVER)
        # a type that is embedded must come earlier, or the cycle would consist of embedding
        j = R.choice([j for j in range(hi) if not inl[j] or j < i] or [None])
        if j is None:
            return "String", ""
        w = R.choice(WRAPS)
        if j < i and R.random() < 0.3:
            w = "%s"
        at = R.choice(OVER)
        if not strict and j < i and R.random() < 0.3:
            at += "#[opg(inline)] "
        return w % names[j], at

    def embedded(i):
        """the member of a single-field struct or of an internally tagged newtype variant: its schema is used as it stands"""
        if not strict and i and R.random() < 0.6:
            return R.choice(EMBED) % names[R.randrange(i)], R.choice(OVER)
        for _ in range(20):
            t, a = ty(i)
            if t.startswith(("Vec<", "std::collections", "(u8", "Vec<(")):
                return t, a
        return "String", ""

    def named(i, pub=""):
        return "".join("%sf%d: %s, " % (a + pub, k, t) for k, (t, a) in enumerate(ty(i) for _ in range(R.randint(1, 3))))

    def unnamed(i, k):
        return "".join("%s%s, " % (a, t) for t, a in (ty(i) for _ in range(k)))

    def emb(i):
        t, a = embedded(i)
        return a + t
    for i in range(n):
        k = R.choice(KINDS)
        head = "#[derive(wattr::Serde, opg::OpgModel)] " + ("#[opg(inline)] " if inl[i] else "") + R.choice(("", "", '#[opg("type %s")] ' % names[i]))
        if k == "struct":
            out += head + "pub struct %s { %s }\n" % (names[i], named(i, "pub "))
        elif k == "tuple":
            out += head + "pub struct %s(%s);\n" % (names[i], unnamed(i, R.randint(2, 3)))
        elif k == "newtype":
            out += head + "pub struct %s(%s);\n" % (names[i], emb(i))
        else:
            tag = {"external": "", "untagged": "#[serde(untagged)] ", "internal": '#[serde(tag = "k")] ', "adjacent": '#[serde(tag = "k", content = "c")] '}[k]
            vs = []
            for v in range(R.randint(1, 3)):
                s = R.choice(("struct", "newtype", "unit") + (() if k == "internal" else ("tuple",)))
                vs.append("V%d" % v + {"struct": lambda: " { %s }" % named(i), "newtype": lambda: "(%s)" % (emb(i) if k == "internal" else unnamed(i, 1)),
                                       "unit": lambda: "", "tuple": lambda: "(%s)" % unnamed(i, 2)}[s]())
            if all("(" not in v and "{" not in v for v in vs):
                vs.append("Vx { %s }" % named(i))
            out += head + tag + "pub enum %s { %s }\n" % (names[i], ", ".join(vs))
    m.types = [(x, x, inl[i]) for i, x in enumerate(names)]
    m.text = out
    return m


D = "#[derive(wattr::Serde, opg::OpgModel)] "


def fixed():
    """shapes worth naming"""
    out = []

    def add(what, text, types, known=()):
        m = Mod("f%d" % len(out), what)
        m.text, m.types, m.known, m.strict = text, [(t, t.split("<")[0].rsplit("::", 1)[-1], False) for t in types], dict(known), True
        out.append(m)
        return m
    for w in WRAPS:
        add("struct that contains itself through " + w, D + "pub struct Node { next: %s }" % (w % "Node"), ["Node"])
        add("mutual recursion through " + w, D + "pub struct Left { r: %s, n: u32 }\n" % (w % "Right") + D + "pub struct Right { l: %s }" % (w % "Left"), ["Left", "Right"])
        for k, t in (("external", ""), ("untagged", "#[serde(untagged)] "), ("internal", '#[serde(tag = "k")] '), ("adjacent", '#[serde(tag = "k", content = "c")] ')):
            add("%s enum that contains itself through %s" % (k, w), D + t + "pub enum Tree { Leaf { v: u32 }, Node { l: %s, r: Vec<Tree> }, Other }" % (w % "Tree"), ["Tree"])
            if k != "internal":
                add("%s enum whose tuple contains it through %s" % (k, w), D + t + "pub enum Tree { Leaf(u32), Pair(%s, Vec<Tree>) }" % (w % "Tree"), ["Tree"])
                add("%s enum whose newtype contains it through %s" % (k, w), D + t + "pub enum Tree { Leaf(u32), One(%s) }" % (w % "Tree"), ["Tree"])
        add("tuple struct that contains itself through " + w, D + "pub struct Pair(u32, %s);" % (w % "Pair"), ["Pair"])
    for w in ("Vec<%s>", "std::collections::BTreeMap<String, %s>", "(u8, Vec<%s>)", "Vec<Option<%s>>"):
        add("single-field struct that contains itself through " + w, D + "pub struct List(%s);" % (w % "List"), ["List"])
    add("three in a ring", D + "pub struct A { b: Box<B> }\n" + D + "pub struct B { c: Vec<C> }\n" + D + "pub struct C { a: Option<Box<A>>, w: crate::W3 }", ["A", "B", "C"])
    add("generic tree", D + "pub struct Tree<T> { v: T, next: Vec<Tree<T>> }", ["Tree<crate::W1>"])
    add("generic pair of trees", D + "pub struct Tree<T> { v: Vec<T>, next: Option<Box<Forest<T>>> }\n" + D + "pub struct Forest<T> { t: Vec<Tree<T>> }", ["Tree<crate::W1>", "Forest<crate::W1>"])
    add("names that differ in case", D + "pub struct Item { a: u32 }\n" + D + "pub struct ITEM { b: Vec<Item> }\n" + D + "pub struct item { c: Box<ITEM> }", ["Item", "ITEM", "item"])
    add("names that extend each other", D + "pub struct User { a: u32 }\n" + D + "pub struct UserList { b: Vec<User> }\n" + D + "pub struct UserListUser { c: UserList, d: User }\n" + D + "pub struct User_ { e: u8 }\n" + D + "pub enum Users { A, B }",
        ["User", "UserList", "UserListUser", "User_", "Users"])
    add("names with a rename on the type", D + '#[serde(rename = "Other")] pub struct One { a: u32 }\n' + D + '#[serde(rename = "Other")] pub struct Two { b: u8 }\n' + D + "pub struct Other { one: One, two: Two }", ["One", "Two", "Other"])
    add("same fields, different names", D + "pub struct One { a: u32 }\n" + D + "pub struct Two { a: u32 }\n" + D + "pub struct Three(Vec<One>);", ["One", "Two", "Three"])
    add("enums and structs with similar names", D + "pub enum State { A, B }\n" + D + '#[serde(tag = "State")] pub enum States { State { State: State }, B }\n' + D + "pub struct StateA { s: State, t: States }", ["State", "States", "StateA"])
    add("raw names", D + "pub struct r#type { a: u32 }\n" + D + "pub struct Type { b: r#type }", ["r#type", "Type"])
    add("non-ASCII names", D + "pub struct Übung { a: u32 }\n" + D + "pub struct Ubung { b: Übung }", ["Übung", "Ubung"])
    # two types, one name: recorded
    add("one generic type at two arguments", D + "pub struct Page<T> { items: Vec<T> }\n", ["Page<crate::W1>", "Page<crate::W2>"], {"Page": "generic-arguments-share-name"})
    add("two types of the same identifier", "pub mod a { " + D + "pub struct Item { a: u32 } }\npub mod b { " + D + "pub struct Item { b: u8 } }\n", ["a::Item", "b::Item"], {"Item": "same-identifier-in-two-modules"})
    return out


def build(thorough):
    R = random.Random(4711)
    ms = fixed()
    for i in range(1500 if thorough else 240):
        ms.append(one(R, "g%d" % i, R.randint(1, 5), cyclic=R.random() < 0.8, strict=i % 2 == 0))
    return ms


def crate_text(ms):
    from derive_gen import HEADER
    out = HEADER.replace("pub mod types {", "")
    for m in ms:
        out += "pub mod %s { %s\n" % (m.name, m.text)
        for i, (t, _, _) in enumerate(m.types):
            out += " pub fn schema%d(cx: &mut opg::Components) -> opg::Model { <%s as opg::OpgModel>::get_schema(cx) }\n" % (i, t)
            out += " pub fn mention%d(cx: &mut opg::Components, i: bool, p: &opg::ContextParams) -> opg::ModelReference { cx.mention_schema::<%s>(i, p) }\n" % (i, t)
        out += "}\n"
    return out


def sequences(m, thorough):
    n = len(m.types)
    out = [[i] for i in range(n)]
    if n > 1:
        out += [list(range(n)), list(range(n))[::-1], [0, 1, 0], [n - 1, n - 1]]
    if thorough and n > 2:
        import itertools
        out += [list(x) for x in itertools.permutations(range(n), 2)]
    return out


def count_hook(W, crate):
    def pred(I, f):
        return f["ti"] == "opg::models::OpgModel::get_schema" and f["self"] is not None and I.tname(f["self"]).startswith(crate + "::")

    def h(I, f, a):
        I.state.setdefault("expand", []).append(I.tname(f["self"]))
        return NotImplemented
    if not getattr(W, "_ch", False):
        W.I.hook_pred.append((pred, h))
        for f in W.I.fns:
            f.pop("_h", None)
        W._ch = True


def null_only(W, x, y):
    """differs in the nullable flag of the top level only"""
    if not isinstance(x, type(y)) or mdiff(x["description"], y["description"], ""):
        return False
    a, b = x["data"], y["data"]
    return isinstance(a, E) and isinstance(b, E) and a.n == b.n == "Single" and a.a[0]["nullable"] is True and b.a[0]["nullable"] is False and mdiff(a.a[0]["type_description"], b.a[0]["type_description"], "") is None


def own(W, m):
    """name -> the type's schema when asked for alone"""
    out = {}
    for i, (t, n, inl) in enumerate(m.types):
        if not inl:
            out.setdefault(n.replace("r#", ""), []).append(W.term(W.call("%s::schema%d" % (m.name, i), Ref([W.call("default_components")], 0))))
    return out


def check(prop):
    def f(cx, rep):
        import derive_checks
        ms = build(cx.thorough)
        W = cx.generated("wgraph", crate_text(ms), World, "graphs of derived types")
        count_hook(W, "wgraph")
        leaves = [norm(W.S("name:W%d" % i)) for i in range(10)]

        def go(rep, part):
            for m in part:
                if prop != "C26" and m.known:
                    continue
                anchor = "derive(OpgModel) on: " + " ".join(m.text.split())[:400]
                for seq in sequences(m, cx.thorough):
                    for inl, ov in ((0, 0), (0, 1), (1, 1)) if prop != "C03" else ((0, 0),):
                        if len(seq) > 1 and (inl or (ov and prop != "C26")):
                            continue

                        def run(I, m=m, seq=seq, inl=inl, ov=ov):
                            c = [W.call("default_components")]
                            rs, seen = [], []
                            for i in seq:
                                p = [params(W, *((W.S("D"), True, None, W.S("F"), W.S("E")) if ov else (None,) * 5))]
                                rs.append(W.term(W.call("%s::mention%d" % (m.name, i), Ref(c, 0), inl, Ref(p, 0))))
                                seen.append(W.term(c[0])["schemas"])
                            ex = list(I.state.get("expand", []))
                            return rs, seen, ex, own(W, m) if prop != "C01" else None

                        def oracle(v, m=m, seq=seq, inl=inl):
                            rs, seen, ex, o = v
                            reg = {norm(k): x for k, x in seen[-1].items}
                            opt = "Option<" in m.text
                            if prop == "C01":
                                for r, s in zip(rs, seen):
                                    ks = [norm(k) for k, _ in s.items]
                                    dang = [x for x in links([r, s], []) if x not in ks]
                                    if dang:
                                        return "references without a registered schema: %s" % dang
                                for s in seen[:-1]:
                                    for k, x in s.items:
                                        if norm(k) not in reg:
                                            return "registered schema %r was dropped" % (k,)
                                        e = mdiff(reg[norm(k)], x, "schema %r" % (k,))
                                        if e:
                                            return e
                                return None
                            if prop == "C03" and m.strict:
                                twice = sorted(set(x for x in ex if ex.count(x) > 1))
                                if twice:
                                    return "expanded more than once: %s" % twice
                            known = None
                            for k, x in reg.items():
                                if k in leaves:
                                    d = W.S("schema:W%d" % leaves.index(k))
                                    e = mdiff(x, M_single(E("Boolean"), False, d), "schema of %r" % (k,))
                                    if e and not (opt and mdiff(x, M_single(E("Boolean"), True, d), "") is None):
                                        return e
                                    if e:
                                        known = known or Known("option-first-mention", e)
                                    continue
                                if k not in o:
                                    if prop == "C03":
                                        continue
                                    return "unexpected registered name %r" % (k,)
                                es = [mdiff(x, y, "schema registered as %r" % (k,)) for y in o[k]]
                                if None not in es:
                                    if not (opt and any(null_only(W, x, y) for y in o[k])):
                                        return es[0]
                                    known = known or Known("option-first-mention", es[0])
                                elif prop == "C26" and len(o[k]) > 1 and not inl and len({m.types[i][0] for i in seq}) > 1:
                                    # two types, one name: whichever is registered, the other one is documented wrongly
                                    e = "%s share the registered schema %r" % (" and ".join(t for t, _, _ in m.types), k)
                                    if k not in m.known:
                                        return e
                                    known = known or Known(m.known[k], e)
                            return known if prop == "C26" else None
                        scenario(rep, W, "%s (%s) requested %s inline=%d overrides=%d" % (m.name, m.what, ",".join(m.types[i][0] for i in seq), inl, ov), run, oracle, anchor, diverge_bad=True, refine=False)
        parallel(rep, W, ms, go)
        rep.visited |= {("wgraph", x) for x in W.I.visited}
    f.__name__ = "graphs " + prop
    return f
