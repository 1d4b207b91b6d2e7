"""C25: derived generic types, the arguments they must accept and those they must refuse."""
import itertools

HEAD = '''#![allow(dead_code, unused, non_snake_case, non_camel_case_types, non_local_definitions, type_alias_bounds)]
pub trait Tr { type Assoc; type Other; }
#[derive(Clone, Debug, Default, opg::OpgModel)] pub struct Doc { }
#[derive(Clone, Debug, Default)] pub struct Bare;
#[derive(Clone, Debug, Default, opg::OpgModel)] pub struct DocBare { }
impl Tr for Doc { type Assoc = Doc; type Other = Bare; }
impl Tr for Bare { type Assoc = Doc; type Other = Bare; }
impl Tr for DocBare { type Assoc = Bare; type Other = Doc; }
#[derive(opg::OpgModel)] pub struct Holder<T> { held: T }
pub fn need<X: opg::OpgModel + ?Sized>() {}
pub mod types {
'''

# member type over the parameter T; what it demands: "T" (the parameter), "A" (its associated type), "" (nothing)
USES = [("T", "T"), ("Vec<T>", "T"), ("Option<T>", "T"), ("Box<T>", "T"), ("(T, String)", "T"), ("(String, T)", "T"), ("std::collections::BTreeMap<String, T>", "T"), ("std::collections::HashMap<String, Vec<T>>", "T"),
        ("[T; 2]", "T"), ("std::rc::Rc<T>", "T"), ("Option<Vec<Box<T>>>", "T"), ("std::vec::Vec<T>", "T"), ("(T)", "T"), ("crate::Holder<T>", "T"), ("crate::Holder<crate::Holder<T>>", "T"),
        ("T::Assoc", "A"), ("String", ""), ("crate::Doc", "")]
MARK = ["std::marker::PhantomData<T>", "std::marker::PhantomData<fn() -> T>", "std::marker::PhantomData<Vec<T>>", "::std::marker::PhantomData<T>"]


def shapes(m, other="String"):
    """every kind of item with `m` as the text of one member (attributes included)"""
    named, pos = "x: %s" % m[1], m[1]
    a = m[0]
    yield "struct", "", "struct X@G @W { a: %s, %s%s }" % (other, a, named)
    yield "struct, member first", "", "struct X@G @W { %s%s, z: %s }" % (a, named, other)
    yield "tuple struct", "", "struct X@G (%s, %s%s) @W;" % (other, a, pos)
    yield "single-field struct", "", "struct X@G (%s%s) @W;" % (a, pos)
    for tag, at in (("external", ""), ("untagged", "#[serde(untagged)] "), ("internal", '#[serde(tag = "k")] '), ("adjacent", '#[serde(tag = "k", content = "c")] ')):
        yield tag + " struct variant", at, "enum X@G @W { A { a: %s }, B { %s%s } }" % (other, a, named)
        yield tag + " newtype variant", at, "enum X@G @W { A { a: %s }, B(%s%s) }" % (other, a, pos)
        if tag != "internal":
            yield tag + " tuple variant", at, "enum X@G @W { A { a: %s }, B(%s%s, %s) }" % (other, a, pos, other)


# (name, generics, where clause, arguments with @ for the parameter)
PARAMS = [
    ("plain", "<T>", "", "<@>"),
    ("bounded", "<T: Clone + std::fmt::Debug>", "", "<@>"),
    ("defaulted", "<T = crate::Doc>", "", "<@>"),
    ("bounded and defaulted", "<T: Clone = crate::Doc>", "", "<@>"),
    ("where clause", "<T>", "where T: Clone", "<@>"),
    ("where clause with trailing comma", "<T>", "where T: Clone, Vec<T>: Clone,", "<@>"),
    ("lifetime", "<'a, T>", "", "<'static, @>"),
    ("outliving lifetimes", "<'a, 'b: 'a, T: 'a>", "", "<'static, 'static, @>"),
    ("const after", "<T, const N: usize>", "", "<@, 3>"),
    ("const before", "<const N: usize, T>", "", "<3, @>"),
    ("const with default", "<T, const N: usize = 4>", "", "<@>"),
    ("second parameter free", "<T, U>", "", "<@, crate::Bare>"),
    ("second parameter first", "<U, T>", "", "<crate::Bare, @>"),
]


# a parameter that hides an item of the standard prelude is outside the property
PRELUDE = ("Self", "Option", "Vec", "Default", "String", "Some", "None", "Ok", "Err", "Box", "Result", "Iterator", "Into", "From", "ToString", "ToOwned", "Clone", "PhantomData", "Fn", "FnMut", "FnOnce", "Drop", "Send", "Sync", "Sized", "AsRef", "AsMut", "Extend", "IntoIterator")


def build(words=()):
    """[(key, item text, accepted argument lists, refused argument lists)]"""
    out = []
    D = "#[derive(wattr::Serde, opg::OpgModel)] "

    def add(key, attrs, shape, p, acc, ref):
        name, g, w, args = p
        out.append((key + ", " + name, D + attrs + "pub " + shape.replace("@G", g).replace("@W", w), [args.replace("@", x) for x in acc], [args.replace("@", x) for x in ref]))
    plain = PARAMS[0]
    for ty, need in USES:
        for p in PARAMS if ty in ("T", "Vec<T>", "String", "T::Assoc") else [plain, PARAMS[2], PARAMS[6]]:
            if need == "A":
                p = (p[0], p[1].replace("T: ", "T: crate::Tr + ").replace("<T", "<T: crate::Tr", 1) if "T: " not in p[1] else p[1].replace("T: ", "T: crate::Tr + "), p[2], p[3])
                if "crate::Tr" not in p[1]:
                    p = (p[0], p[1].replace(" T", " T: crate::Tr"), p[2], p[3])
            # what else has to be mentioned goes into a skipped marker
            marks = [m for t, m in (("'a", "&'a ()"), ("'b", "&'b ()"), ("U", "U")) if t in p[1]] + (["T"] if need == "" else [])
            other = "String"
            acc = {"T": ["crate::Doc", "crate::DocBare"], "A": ["crate::Doc", "crate::Bare"], "": ["crate::Doc", "crate::Bare"]}[need]
            ref = {"T": ["crate::Bare"], "A": ["crate::DocBare"], "": []}[need]
            for nm, at, sh in shapes(("", ty), other):
                if marks:
                    mk = "std::marker::PhantomData<(%s,)>" % ", ".join(marks)
                    if nm.startswith("struct"):
                        sh = sh[:-1] + ", #[serde(skip)] mk: %s }" % mk
                    elif nm == "tuple struct":
                        sh = sh.replace(") @W", ", #[serde(skip)] %s) @W" % mk)
                    elif nm == "single-field struct":
                        continue
                    else:
                        sh = sh[:-1] + ", #[serde(skip)] Mk(%s) }" % mk
                add("%s with %s" % (nm, ty), at, sh, p, acc, ref)
    both = ["crate::Doc", "crate::Bare"]
    for sk in ("#[serde(skip)] ", "#[serde(skip_serializing)] "):
        for ty in ["T", "Vec<T>", "(T, T)", "Box<crate::Holder<T>>"] + MARK:
            for p in (plain, PARAMS[2], PARAMS[4], PARAMS[8]):
                for nm, at, sh in shapes((sk, ty)):
                    if nm != "single-field struct":
                        add("%s with skipped %s" % (nm, ty), at, sh, p, both, [])
        for tag, at in (("external", ""), ("untagged", "#[serde(untagged)] "), ("internal", '#[serde(tag = "k")] '), ("adjacent", '#[serde(tag = "k", content = "c")] ')):
            for v in ("B { x: T }", "B(T)", "B(T, Vec<T>)", "B(String, #[serde(skip)] T)"):
                if tag == "internal" and ", " in v:
                    continue
                add("%s enum with a skipped variant" % tag, at, "enum X@G @W { A { a: String }, %s%s }" % (sk, v), plain, both, [])
                add("%s enum with a skipped and a serialized variant" % tag, at, "enum X@G @W { A { a: Vec<T> }, %s%s }" % (sk, v), plain, ["crate::Doc"], ["crate::Bare"])
    for ty in MARK:
        for nm, at, sh in shapes(("#[opg(any)] ", ty)):
            if nm != "single-field struct" and not (nm.startswith("internal newtype")):
                add("%s with %s of explicit type" % (nm, ty), at, sh, plain, both, [])
    # several parameters, each demanded exactly when serialized
    for bits in range(8):
        ps = "ABC"
        fs = ", ".join("%sf%d: %s" % ("" if bits >> i & 1 else "#[serde(skip)] ", i, ["%s", "Vec<%s>", "Option<%s>"][i] % ps[i]) for i in range(3))
        ts = ", ".join("%s%s" % ("" if bits >> i & 1 else "#[serde(skip)] ", ["%s", "Vec<%s>", "Option<%s>"][i] % ps[i]) for i in range(3))
        args = lambda bad: "<%s>" % ", ".join("crate::Bare" if j in bad else "crate::Doc" for j in range(3))
        free = {i for i in range(3) if not bits >> i & 1}
        for nm, at, sh in (("struct", "", "struct X<A, B, C> { %s }" % fs), ("tuple struct", "", "struct X<A, B, C>(%s);" % ts), ("variant", "", "enum X<A, B, C> { V { %s }, W }" % fs), ("untagged variant", "#[serde(untagged)] ", "enum X<A, B, C> { V(%s), W { a: u8 } }" % ts),
                           ("internal variant", '#[serde(tag = "t")] ', "enum X<A, B, C> { V { %s }, W }" % fs), ("adjacent variant", '#[serde(tag = "t", content = "c")] ', "enum X<A, B, C> { V(%s), W }" % ts)):
            out.append(("three parameters in a %s, serialized %s" % (nm, bits), D + at + "pub " + sh, [args(free), args(set())], [args({i}) for i in range(3) if bits >> i & 1]))
    # shapes of their own
    out += [
        ("lifetimes only", D + "pub struct X<'a, 'b> { a: &'a str, b: Option<&'b crate::Doc> }", ["<'static, 'static>"], []),
        ("borrowed slice", D + "pub struct X<'a, T> { a: &'a [T], b: &'a T }", ["<'static, crate::Doc>"], ["<'static, crate::Bare>"]),
        ("unsized parameter", D + "pub struct X<T: ?Sized> { a: Box<T> }", ["<crate::Doc>", "<str>", "<[crate::Doc]>"], ["<crate::Bare>"]),
        ("array of const length", D + "pub struct X<T, const N: usize> { a: [T; N] }", ["<crate::Doc, 3>", "<crate::Doc, 0>", "<crate::Doc, 40>"], ["<crate::Bare, 3>"]),
        ("const parameter only", D + "pub struct X<const N: usize> { a: [u8; N] }", ["<3>"], []),
        ("bool const parameter", D + "pub struct X<const B: bool> { a: u8 }", ["<true>"], []),
        ("const default", D + "pub struct X<const N: usize = 3> { a: [u8; N] }", ["", "<5>"], []),
        ("default argument left out", D + "pub struct X<T = String> { a: T }", ["", "<crate::Doc>"], ["<crate::Bare>"]),
        ("recursive", D + "pub struct X<T> { v: T, next: Option<Box<X<T>>> }", ["<crate::Doc>"], ["<crate::Bare>"]),
        ("recursive enum", D + "pub enum X<T> { Leaf(T), Node(Vec<X<T>>) }", ["<crate::Doc>"], ["<crate::Bare>"]),
        ("bound that implies documentation", D + "pub struct X<T: opg::OpgModel> { a: T }", ["<crate::Doc>"], ["<crate::Bare>"]),
        ("higher-ranked where clause", D + "pub struct X<F> where for<'r> F: Fn(&'r u8) -> u8 { a: u8, #[serde(skip)] f: F }", ["<fn(&u8) -> u8>"], []),
        ("associated type of a bound", D + "pub struct X<I: Iterator> { a: I::Item }", ["<std::vec::IntoIter<crate::Doc>>"], ["<std::vec::IntoIter<crate::Bare>>"]),
        ("associated type twice", D + "pub struct X<T: crate::Tr> { a: T::Assoc, #[serde(skip)] b: Option<T::Other> }", ["<crate::Doc>", "<crate::Bare>"], ["<crate::DocBare>"]),
        ("associated type in a variant", D + "pub enum X<T: crate::Tr> { A(T::Assoc), B }", ["<crate::Doc>", "<crate::Bare>"], ["<crate::DocBare>"]),
        ("parameter and its associated type", D + "pub struct X<T: crate::Tr> { a: T, b: T::Assoc }", ["<crate::Doc>"], ["<crate::Bare>", "<crate::DocBare>"]),
        ("inline container", D + "#[opg(inline)] pub struct X<T> { a: T }", ["<crate::Doc>"], ["<crate::Bare>"]),
        ("inline member", D + "pub struct X<T> { #[opg(inline, \"d\")] a: T }", ["<crate::Doc>"], ["<crate::Bare>"]),
        ("raw parameter name", D + "pub struct X<r#T> { a: r#T }", ["<crate::Doc>"], ["<crate::Bare>"]),
        ("bounds in both places", D + "pub struct X<T: Clone> where T: Default, String: Clone { a: T }", ["<crate::Doc>"], []),
        ("parameter used by a const expression", D + "pub struct X<const N: usize, const M: usize> { a: [u8; N], b: [crate::Doc; M] }", ["<1, 2>"], []),
    ]
    ids = [w for w in dict.fromkeys(list(words) + ["T", "U", "S", "__S", "Cx", "Model", "Components", "ContextParams", "ModelReference", "OpgModel", "Cow", "BTreeMap", "Default", "Self_"]) if w.isascii() and w.isidentifier() and w[0].isupper() and w not in PRELUDE]
    for w in ids:
        out.append(("parameter named " + w, D + "pub struct X<%s> { a: %s, #[opg(\"d\", format = \"f\", example = \"e\", nullable)] b: String_ }" % (w, w), ["<crate::Doc>"], ["<crate::Bare>"]))
        out.append(("enum parameter named " + w, D + "#[serde(tag = \"t\")] pub enum X<%s> { A { a: %s, #[opg(string)] b: u8 }, B }" % (w, w), ["<crate::Doc>"], ["<crate::Bare>"]))
    return [(k, t.replace("String_", "std::string::String"), a, r) for k, t, a, r in out]


def crates(items):
    acc, ref, la, lr = HEAD, HEAD, {}, {}
    n = HEAD.count("\n")
    nr = n
    for i, (k, t, a, r) in enumerate(items):
        n += 1
        acc += "pub mod m%d { %s\n" % (i, t)
        la[n] = ("derive", i)
        for x in a:
            n += 1
            acc += "pub fn f%d() { crate::need::<X%s>(); }\n" % (n, x)
            la[n] = ("use", i, x)
        acc += "}\n"
        n += 1
        nr += 1
        ref += "pub mod m%d { %s\n" % (i, t)
        lr[nr] = ("derive", i)
        for x in r:
            nr += 1
            ref += "pub fn f%d() { crate::need::<X%s>(); }\n" % (nr, x)
            lr[nr] = ("use", i, x)
        ref += "}\n"
        nr += 1
    return acc + "}\n", la, ref + "}\n", lr
