"""C19, C23, C24, C25: programs that must and must not compile."""
import re
import build
from engine import *
from macro_gen import SHADOW

API = "pub fn f() -> opg::models::Opg { opg::describe_api! { %s } }"
TYP = "pub fn f() -> opg::models::Model { opg::describe_type!(%s) }"
PATH = API % 'paths: { ("a"): { GET: { %s } } }'
# (what is missing, template, accepted twin, rejected form): twin and form differ by the offending part only
MACRO_PAIRS = [
    ("request body without schema", PATH, 'body: { schema: String, description: "d" }', 'body: { description: "d" }'),
    ("request body with only required", PATH, "body: { required: true, schema: String }", "body: { required: true }"),
    ("empty request body", PATH, "body: { schema: String }", "body: { }"),
    ("http security scheme without kind", API, 'security_schemes: { (http "a"): { scheme: Bearer, bearer_format: "x" } }', 'security_schemes: { (http "a"): { bearer_format: "x" } }'),
    ("http security scheme with only a description", API, 'security_schemes: { (http "a"): { scheme: Basic, description: "x" } }', 'security_schemes: { (http "a"): { description: "x" } }'),
    ("api key without name", API, 'security_schemes: { (apiKey "a"): { parameter_in: Query, name: "x" } }', 'security_schemes: { (apiKey "a"): { parameter_in: Query } }'),
    ("api key with only a description", API, 'security_schemes: { (apiKey "a"): { name: "n", description: "x" } }', 'security_schemes: { (apiKey "a"): { description: "x" } }'),
    ("unknown http scheme kind", API, 'security_schemes: { (http "a"): { scheme: Bearer } }', 'security_schemes: { (http "a"): { scheme: Digest } }'),
    ("unknown api key location", API, 'security_schemes: { (apiKey "a"): { parameter_in: Cookie, name: "x" } }', 'security_schemes: { (apiKey "a"): { parameter_in: Body, name: "x" } }'),
    ("unknown kind of security scheme", API, 'security_schemes: { (apiKey "a"): { name: "x" } }', 'security_schemes: { (oauth "a"): { name: "x" } }'),
    ("unknown info property", API, 'info: { title: "a" }', 'info: { titel: "a" }'),
    ("unknown block", API, "tags: { a }", "taggs: { a }"),
    ("unknown method", API, 'paths: { ("a"): { GET: { 200: None } } }', 'paths: { ("a"): { FETCH: { 200: None } } }'),
    ("unknown operation property", PATH, 'summary: "a"', 'sumary: "a"'),
    ("unknown path property", API, 'paths: { ("a"): { summary: "x" } }', 'paths: { ("a"): { sumary: "x" } }'),
    ("unknown body property", PATH, 'body: { schema: String, description: "d" }', 'body: { schema: String, descr: "d" }'),
    ("unknown parameter property", PATH, 'parameters: { (query a: String): { required: true } }', "parameters: { (query a: String): { requird: true } }"),
    ("query parameter without type", PATH, "parameters: { (query a: String) }", "parameters: { (query a) }"),
    ("unknown parameter location", PATH, "parameters: { (query a: String) }", "parameters: { (cookie a: String) }"),
    ("response of an undocumentable type", "pub struct T; pub struct U(String); impl opg::OpgModel for U { fn get_schema(_: &mut opg::Components) -> opg::Model { loop {} } fn type_name() -> Option<std::borrow::Cow<'static, str>> { None } } " + PATH, "200: U", "200: T"),
    ("body of an undocumentable type", "pub struct T; " + PATH, "body: String", "body: T"),
    ("placeholder of an undocumentable type", "pub struct T; " + API, 'paths: { ("a" / {id: String}): { } }', 'paths: { ("a" / {id: T}): { } }'),
    ("deprecated flag that is not a boolean", PATH, "deprecated: true", 'deprecated: "yes"'),
    ("response code out of range", PATH, "200: None", "70000: None"),
    ("array without items", TYP, 'array => { description: "d" items: (string => {}) }', 'array => { description: "d" }'),
    ("object without properties", TYP, 'object => { description: "d" properties: { } }', 'object => { description: "d" }'),
    ("raw type without data", "pub fn f(d: opg::models::ModelData) -> opg::models::Model { opg::describe_type!(%s) }", 'raw_type => { description: "x" ident: d }', 'raw_type => { description: "x" }'),
    ("unknown type", TYP, "string => {}", "strng => {}"),
    ("unknown type property", TYP, 'string => { format: "x" }', 'string => { fromat: "x" }'),
    ("allowed values on a number", TYP, 'string => { variants: ["a"] }', 'number => { variants: ["a"] }'),
    ("format on a boolean", TYP, 'boolean => { description: "a" }', 'boolean => { format: "a" }'),
    ("unknown property flag", TYP, "object => { properties: { a[required]: (string => {}) } }", "object => { properties: { a[requird]: (string => {}) } }"),
    ("property without type", TYP, "object => { properties: { a: (string => {}) } }", "object => { properties: { a: () } }"),
    ("link without name", TYP, 'array => { items: (link => "A") }', "array => { items: (link => ) }"),
]


def pairs(rep, ext, table, prop="", anchor=""):
    snips = []
    for n, t, ok, bad in table:
        snips.append((n + "/ok", t % ok))
        snips.append((n + "/bad", t % bad))
    res = build.compile_snippets(snips, ext)
    for n, t, ok, bad in table:
        a, b = res[n + "/ok"], res[n + "/bad"]
        rep.add("accepted: twin of " + n, not a, "does not compile: %s\n    %s" % ("; ".join(a[:3]), t % ok), anchor)
        if not a:
            rep.add("rejected: " + n, bool(b), "compiles: %s" % (t % bad), anchor)
    return res


def c23(cx, rep):
    ext = cx.externs()
    pairs(rep, ext, MACRO_PAIRS, anchor="opg/src/macros.rs")

    import macro_gen, type_gen
    macro_gen.set_words(cx.lib_words())
    for what, gen in (("describe_api!", macro_gen), ("describe_type!", type_gen)):
        wit = gen.build(cx.thorough)
        text = gen.crate_text(wit)
        for ed in ("2018", "2021"):
            errs = build.compile_snippets([("w", text)], ext, edition=ed)["w"]
            starts = []
            for i, l in enumerate(text.splitlines(), 1):
                m = re.match(r"pub fn (\w+)\(", l)
                if m:
                    starts.append((i, m[1]))
            bad = {}
            for e in errs:
                m = re.search(r" at line (\d+)$", e)
                fn = "crate"
                if m:
                    for i, n in starts:
                        if i <= int(m[1]):
                            fn = n
                bad.setdefault(fn, e)
            for w in wit:
                rep.add("accepted without imports: %s %s (%s), edition %s" % (what, w[0], w[4], ed), w[0] not in bad, "%s: %s" % (bad.get(w[0]), w[1]), "opg/src/macros.rs")
            for fn, e in bad.items():
                if fn not in {w[0] for w in wit}:
                    rep.add("accepted without imports: %s, edition %s" % (what, ed), False, e, "opg/src/macros.rs")


def by_line(errs, lines):
    """error messages per generated item; those outside any item under None"""
    out = {}
    for e in errs:
        m = re.search(r" at line (\d+)$", e)
        out.setdefault(lines.get(int(m[1])) if m else None, []).append(e)
    return out


def c19(cx, rep):
    import reject_gen as rg
    ext = cx.externs()
    words = cx.derive_words()
    A = "opg_derive/src/attr.rs"
    D = "#[derive(wattr::Serde, opg::OpgModel)] "
    acc = [("%d: %s" % (i, k), t) for i, (k, t) in enumerate(rg.accepted() + [("twin of " + n, D + ok) for n, bad, ok in rg.UNSUPPORTED])]
    rej = [("%d: %s" % (i, k), t) for i, (k, t) in enumerate(rg.rejected(words))]
    ta, la = rg.crate(acc)
    tr, lr = rg.crate(rej)
    one = []
    for n, bad, ok in rg.UNSUPPORTED:
        one.append((n, rg.crate([(n, D + bad)])[0]))
    res = build.compile_snippets([("accepted", ta), ("rejected", tr)] + one, ext, edition="2021")
    bad = by_line(res["accepted"], la)
    lost = bad.pop(None, None)
    for k, t in acc:
        if lost and not bad:
            rep.undecided("accepted: " + k, "; ".join(lost[:2]))
        else:
            rep.add("accepted: " + k, k not in bad, "%s: %s" % ("; ".join(bad.get(k, [])[:2]), t[:400]), A)
    bad = by_line(res["rejected"], lr)
    again = [(k, rg.crate([(k, t)])[0]) for k, t in rej if k not in bad]
    res2 = build.compile_snippets(again[:200], ext, edition="2021")
    for k, t in rej:
        rep.add("rejected: " + k, k in bad or bool(res2.get(k)), "compiles: %s" % t[:400], A)
    for n, b, ok in rg.UNSUPPORTED:
        rep.add("rejected: " + n, bool(res[n]), "compiles: " + D + b, A)


def c25(cx, rep):
    import generic_gen as gg
    A = "opg_derive/src/bound.rs"
    ext = build.externs("opg/const_generics")
    items = gg.build([w for w in cx.derive_words() if len(w) < 30])
    ta, la, tr, lr = gg.crates(items)
    res = build.compile_snippets([("a", ta), ("r", tr)], ext, edition="2021")
    ea, er = by_line(res["a"], la), by_line(res["r"], lr)
    for i, (k, t, a, r) in enumerate(items):
        e = ea.get(("derive", i))
        rep.add("compiles: " + k, not e, "%s: %s" % ("; ".join((e or [])[:2]), t), A)
        if e:
            continue
        for x in a:
            e = ea.get(("use", i, x))
            rep.add("applies to %s: %s" % (x, k), not e, "%s: %s" % ("; ".join((e or [])[:2]), t), A)
        for x in r:
            rep.add("refuses %s: %s" % (x, k), ("use", i, x) in er, "the implementation claims X%s: %s" % (x, t), A)
