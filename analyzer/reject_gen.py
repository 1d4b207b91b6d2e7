"""C19: derive inputs with exactly one mistake, and their right twins."""
import random
from derive_gen import *
import derive_gen as dg

# (what, level letters c/v/f, opg items, serde items, raw attribute text)
MISTAKES = []


def m(what, levels, opg=(), serde=(), raw="", only=None):
    for l in levels:
        MISTAKES.append((what, l, tuple([opg] if isinstance(opg, str) else opg), tuple([serde] if isinstance(serde, str) else serde), raw, only))


for w in ("zzz", 'zzz = "x"', "zzz = 1", 'zzz("x")', "zzz(a, b)", "a::b", 'a::b = "x"', "INLINE", "descriptions", 'desc = "x"', 'description = "x"', "r#inline"):
    m("unknown attribute %s" % w, "cvf", w)
for w in ("5", "true", "'c'", 'b"x"', "1.5"):
    m("description %s is not a string" % w, "cvf", w)
for k in ("format", "example", "example_with"):
    for v in ("5", "true", "1.5", "'c'", 'b"x"'):
        m("%s = %s is not a string" % (k, v), "cvf", "%s = %s" % (k, v))
    m("%s without value" % k, "cvf", k)
    m("%s as a list" % k, "cvf", '%s("x")' % k)
for v in ("1 +", "", "fn", "a b", "let x"):
    m("example_with = %r is not an expression" % v, "cvf", "example_with = " + rs(v))
for k, ls in (("inline", "cvf"), ("nullable", "cf"), ("optional", "f"), ("string", "cvf"), ("integer", "cvf"), ("number", "cvf"), ("boolean", "cvf"), ("any", "cvf")):
    m("%s with a value" % k, ls, k + " = true")
    m("%s with a string" % k, ls, k + ' = "true"')
    m("%s as a list" % k, ls, k + "(true)")
    m("%s twice" % k, ls, (k, k))
m("nullable on a variant", "v", "nullable")
m("optional on a variant or container", "cv", "optional")
for a, b in (("string", "integer"), ("integer", "string"), ("number", "boolean"), ("boolean", "any"), ("any", "number")):
    m("explicit types %s and %s" % (a, b), "cvf", (a, b))
m("three explicit types", "cvf", ("string", "number", "integer"))
for a, b in (('"a"', '"b"'), ('"a"', '"a"'), ('format = "a"', 'format = "b"'), ('format = "a"', 'format = "a"'), ('example = "a"', 'example = "b"'), ('example = "a"', 'example_with = "1"'), ('example_with = "1"', 'example = "a"'), ('example_with = "1"', 'example_with = "2"')):
    m("%s and %s" % (a, b), "cvf", (a, b))
for a, b in (('rename = "a"', 'rename = "b"'), ('rename = "a"', 'rename(serialize = "b")'), ('rename(serialize = "a")', 'rename = "b"'), ('rename(serialize = "a", deserialize = "c")', 'rename(serialize = "b")')):
    m("serde %s and %s" % (a, b), "cvf", (), (a, b))
m("serde rename with two serialize names", "cvf", (), 'rename(serialize = "a", serialize = "b")')
m("serde rename = 5", "cvf", (), "rename = 5")
for a, b in (('rename_all = "camelCase"', 'rename_all = "UPPERCASE"'), ('rename_all = "camelCase"', 'rename_all(serialize = "UPPERCASE")')):
    m("serde %s and %s" % (a, b), "cv", (), (a, b))
m("serde rename_all = 5", "cv", (), "rename_all = 5")
for a, b in (("skip", "skip"), ("skip", "skip_serializing"), ("skip_serializing", "skip_serializing")):
    m("serde %s and %s" % (a, b), "vf", (), (a, b))
m("serde skip_serializing_if twice", "f", (), ('skip_serializing_if = "crate::no"', 'skip_serializing_if = "crate::no"'))
m("serde skip_serializing_if = 5", "f", (), "skip_serializing_if = 5")
for v in ("1 +", "", "a b"):
    m("serde skip_serializing_if = %r is not a path" % v, "f", (), "skip_serializing_if = " + rs(v))
m("serde flatten twice", "f", (), ("flatten", "flatten"))
m("serde transparent twice", "c", (), ("transparent", "transparent"))
m("serde untagged twice", "c", (), ("untagged", "untagged"), only="external")
m("serde tag twice", "c", (), ('tag = "a"', 'tag = "b"'), only="external")
m("serde content twice", "c", (), ('tag = "a"', 'content = "b"', 'content = "c"'), only="external")
for r in ("#[opg]", '#[opg = "x"]', "#[opg(=)]", "#[opg(a b)]", "#[opg(,)]", "#[opg(format = )]", '#[opg(format = "a" "b")]', "#[opg(format = crate::X)]", "#[opg(-1)]", "#[serde]", '#[serde = "x"]'):
    m("malformed %s" % r, "cvf", raw=r + " ")

KNOWN = dict(
    c=['"text"', 'format = "x"', 'example = "x"', 'example_with = "1 + 1"', "inline", "nullable"],
    v=['"text"', 'format = "x"', 'example = "x"', 'example_with = "1 + 1"', "inline", "string", "integer", "number", "boolean", "any"],
    f=['"text"', 'format = "x"', 'example = "x"', 'example_with = "1 + 1"', "inline", "nullable", "optional", "string", "integer", "number", "boolean", "any"])


def bases():
    """makers of items; each takes a function (level, place) -> attributes"""
    out = []

    def fs(at, n=2):
        return [F("fa%d" % i, [WS[i], STR, U32][i % 3], at("f", i)) for i in range(n)]

    def ts(at, n=2):
        return [F(str(i), [WS[i], STR, U32][i % 3], at("f", i)) for i in range(n)]
    for n in (1, 3):
        out.append(("struct of %d" % n, [("c", 0), ("f", 0), ("f", n - 1)], lambda at, n=n: ("struct", fs(at, n), {})))
    out.append(("tuple struct", [("c", 0), ("f", 0), ("f", 2)], lambda at: ("tuple", ts(at, 3), {})))
    out.append(("single-field struct", [("c", 0), ("f", 0)], lambda at: ("newtype", ts(at, 1), {})))
    out.append(("unit enum", [("c", 0), ("v", 0), ("v", 2)], lambda at: ("enum", [V("V%d" % i, "unit", a=at("v", i)) for i in range(3)], {})))
    out.append(("enum with repr", [("c", 0), ("v", 0), ("v", 2)], lambda at: ("enum", [V("V%d" % i, "unit", a=at("v", i)) for i in range(3)], {"repr": "u8"})))
    for tag in TAGS:
        nm = tag if isinstance(tag, str) else tag[0]

        def mk(at, tag=tag, nm=nm):
            vs = [V("Un", "unit", a=at("v", 0)), V("Ne", "newtype", [F("0", STR, at("f", 0))], a=at("v", 1)),
                  V("St", "struct", [F("fa", STR, at("f", 1)), F("fb", WS[1], at("f", 2))], a=at("v", 2))]
            if nm != "internal":
                vs.append(V("Tu", "tuple", [F("0", STR, at("f", 3)), F("1", WS[2], at("f", 4))], a=at("v", 3)))
            return "enum", vs, {"tag": tag}
        k = 2 if nm == "internal" else 3
        out.append((nm + " enum", [("c", 0)] + [("v", i) for i in range(k + 1)] + [("f", i) for i in range(3 if k == 2 else 5)], mk))
    return out


def place(name, mk, lvl, at, n, **attrs):
    """the item of `mk` with attributes at one place"""
    def get(l, i):
        return A(**attrs) if (l, i) == (lvl, at) else A()
    kind, members, kw = mk(get)
    a = A(**attrs) if lvl == "c" else A()
    if kw.get("tag") == "external" or "tag" not in kw:
        pass
    return T("T%d" % n, kind, members, a=a, derives="wattr::Serde, ", **kw)


UNSUPPORTED = [
    ("union", "pub union T { a: u32, b: u32 }", "pub struct T { a: u32, b: u32 }"),
    ("unit struct", "pub struct T;", "pub struct T {}"),
    ("generic unit struct", "pub struct T<const N: usize>;", "pub struct T<const N: usize> {}"),
    ("untagged unit-only enum", "#[serde(untagged)] pub enum T { A, B }", "#[serde(untagged)] pub enum T { A, B(u32) }"),
    ("untagged single unit variant", "#[serde(untagged)] pub enum T { A }", "#[serde(untagged)] pub enum T { A {} }"),
    ("untagged empty enum", "#[serde(untagged)] pub enum T { }", "pub enum T { }"),
    ("first discriminant explicit only", "#[repr(u8)] pub enum T { A = 1, B }", "#[repr(u8)] pub enum T { A = 1, B = 2 }"),
    ("last discriminant explicit only", "#[repr(u8)] pub enum T { A, B, C = 9 }", "#[repr(u8)] pub enum T { A = 0, B = 1, C = 9 }"),
    ("middle discriminant implicit", "#[repr(i64)] pub enum T { A = 1, B, C = 9 }", "#[repr(i64)] pub enum T { A = 1, B = 2, C = 9 }"),
    ("partly explicit discriminants without repr", "pub enum T { A = 1, B }", "pub enum T { A = 1, B = 2 }"),
    ("partly explicit discriminants, tagged", "#[serde(tag = \"t\")] pub enum T { A = 1, B }", "#[serde(tag = \"t\")] pub enum T { A = 1, B = 2 }"),
    ("any on a single-field struct", "#[opg(any)] pub struct T(String);", "#[opg(string)] pub struct T(String);"),
    ("any on the member of a single-field struct", "pub struct T(#[opg(any)] String);", "pub struct T(#[opg(string)] String);"),
    ("member that cannot be documented", "pub struct T { a: crate::Bare }", "pub struct T { #[serde(skip)] a: crate::Bare }"),
    ("element that cannot be documented", "pub struct T { a: Vec<crate::Bare> }", "pub struct T { #[serde(skip)] a: Vec<crate::Bare> }"),
    ("variant content that cannot be documented", "pub enum T { A(crate::Bare), B }", "pub enum T { A(#[serde(skip)] crate::Bare), B }"),
    ("single member that cannot be documented", "pub struct T(crate::Bare);", "#[opg(string)] pub struct T(crate::Bare);"),
]

HEAD = '''#![allow(dead_code, unused, non_snake_case, non_camel_case_types, non_local_definitions)]
pub fn no<T>(_: &T) -> bool { false }
pub const EXA: &str = "exa";
pub fn exs() -> String { String::from("exs") }
pub struct Bare;
macro_rules! leaf { ($($n:ident)*) => { $( #[derive(opg::OpgModel)] pub struct $n { } )* } }
leaf!(W0 W1 W2 W3 W4 W5 W6 W7 W8 W9);
pub mod types {
'''


def crate(items):
    """items: [(key, text)] -> text, {line: key}"""
    out, lines = HEAD, {}
    n = HEAD.count("\n")
    for i, (k, t) in enumerate(items):
        n += 1
        assert "\n" not in t, t
        lines[n] = k
        out += "pub mod m%d { %s }\n" % (i, t)
    return out + "}\n", lines


def rejected(words):
    out = []
    n = 0
    bs = bases()
    for name, places, mk in bs:
        for lvl, at in places:
            for what, l, o, s, raw, only in MISTAKES:
                if l != lvl or only and name != only + " enum":
                    continue
                n += 1
                key = "%s, on the %s %s of a %s" % (what, {"c": "container", "v": "variant", "f": "member"}[lvl], at, name)
                t = place(name, mk, lvl, at, n, opgextra=o, extra=s, layout=n, pre=raw)
                out.append((key, t.text()))
    known = {"c": {"inline", "nullable", "string", "integer", "number", "boolean", "any"}}
    known["v"] = known["c"] - {"nullable"}
    known["f"] = known["c"] | {"optional"}
    values = {"format", "example", "example_with"}
    spots = {l: [(name, p, mk) for name, ps, mk in bs for p in ps if p[0] == l] for l in "cvf"}
    for w in words:
        if not (w.isascii() and w.isidentifier()) or w in ("_", "true", "false", "crate", "self", "Self", "super"):
            continue
        for l in "cvf":
            for form in ("%s", '%s = "x"', '%s("x")'):
                if form == "%s" and w in known[l] or form == '%s = "x"' and w in values:
                    continue
                n += 1
                name, (lvl, at), mk = spots[l][n % len(spots[l])]
                out.append(("unknown attribute %s, on a %s" % (form % w, name), place(name, mk, lvl, at, n, opgextra=(form % w,), layout=n).text()))
    # one mistake among everything else
    R = random.Random(7)
    g = Gen()
    fam_mix(g, 500, seed=99)
    for t in g.items:
        if "crate::types::" in t.text():
            continue
        ps = [("c", t.a)]
        for x in t.members:
            if isinstance(x, V):
                ps.append(("v", x.a))
                ps += [("f", f.a) for f in x.fields]
            else:
                ps.append(("f", x.a))
        l, a = R.choice(ps)
        c = [x for x in MISTAKES if x[1] == l and not x[5]]
        what, _, o, s, raw, _ = R.choice(c)
        a.opgextra, a.extra, a.pre = o, tuple(a.extra) + s, raw
        out.append((what + ", in a mixed item", t.text().replace("\n", " ")))
    return out


def accepted():
    out = []
    n = 0
    for name, places, mk in bases():
        for lvl, at in places:
            L = {"c": "container", "v": "variant", "f": "member"}[lvl]
            for i, k in enumerate(KNOWN[lvl]):
                if name == "single-field struct" and k == "any" or name.startswith("internal") and lvl == "f" and at == 0 and k in ("any",):
                    continue
                n += 1
                out.append(("%s on the %s %s of a %s" % (k, L, at, name), place(name, mk, lvl, at, n, opgextra=(k,)).text()))
            for k in SERDE_ONLY[lvl]:
                n += 1
                out.append(("serde %s on the %s %s of a %s" % (k, L, at, name), place(name, mk, lvl, at, n, extra=(k,), layout=n).text()))
            every = [k for k in KNOWN[lvl] if not k.startswith("example_with") and k not in ("integer", "number", "boolean", "any", "string")]
            for lay in range(4):
                n += 1
                out.append(("all attributes on the %s %s of a %s" % (L, at, name), place(name, mk, lvl, at, n, opgextra=tuple(every), extra=tuple(SERDE_ONLY[lvl][:3]), layout=lay).text()))
            for r in ("#[opg()] ", "#[serde()] ", "/** doc */ ", "#[doc = \"x\"] ", "#[allow(unused)] ", "#[cfg(all())] ", "#[cfg_attr(all(), opg(\"d\"))] ", "#[opg(\"d\",)] "):
                n += 1
                out.append(("%son the %s %s of a %s" % (r, L, at, name), place(name, mk, lvl, at, n, pre=r).text()))
    return out


def ignored():
    """items with serde attributes that must not change the schema"""
    out = []
    for name, places, mk in bases():
        for lvl, at in places:
            for k in SERDE_ONLY[lvl] + ["default, " + SERDE_ONLY[lvl][-1]] if lvl != "v" else SERDE_ONLY[lvl]:
                n = len(out)
                t = place(name, mk, lvl, at, n, extra=(k,), layout=n)
                t.mod, t.fam = "m%d" % n, "serde %s on the %s of a %s" % (k, {"c": "container", "v": "variant", "f": "member"}[lvl], name)
                out.append(t)
    return out
