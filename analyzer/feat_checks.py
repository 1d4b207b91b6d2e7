"""C24: every combination of the library's optional features builds and describes the common types alike."""
import itertools, tomllib, os, re
import build
from build import BuildError, REPO, VERIF
from engine import *
from core_checks import params, overrides

COMMON = dict([
    ("char", "char"), ("str", "str"), ("string", "String"), ("bool", "bool"), ("f32", "f32"), ("f64", "f64"), ("unit", "()")]
    + [(t, t) for t in "i8 u8 i16 u16 i32 u32 i64 u64 isize usize".split()]
    + [("a" + t.lower(), "std::sync::atomic::Atomic" + t) for t in "I8 U8 I16 U16 I32 U32 I64 U64 Isize Usize Bool".split()]
    + [("ref", "&'static W0"), ("refmut", "&'static mut W0"), ("box", "Box<W0>"), ("rc", "std::rc::Rc<W0>"), ("arc", "std::sync::Arc<W0>"), ("cell", "std::cell::Cell<W0>"), ("refcell", "std::cell::RefCell<W0>"), ("option", "Option<W0>"),
       ("boxstr", "Box<str>"), ("refslice", "&'static [W0]"), ("slice", "[W0]"), ("vec", "Vec<W0>"), ("hashset", "std::collections::HashSet<W0>"), ("linkedlist", "std::collections::LinkedList<W0>"), ("vecdeque", "std::collections::VecDeque<W0>"),
       ("binaryheap", "std::collections::BinaryHeap<W0>"), ("hashmap", "std::collections::HashMap<String, W1>"), ("btreemap", "std::collections::BTreeMap<String, W1>"),
       ("arr_arr", "[[W0; 3]; 2]"), ("arr_opt", "[Option<W0>; 4]"), ("opt_arr", "Option<[W0; 5]>"), ("box_arr", "Box<[W0; 32]>"), ("arr_i32", "[i32; 7]"), ("arr_str", "[String; 1]"), ("vec_arr", "Vec<[u8; 16]>"), ("arr_tuple", "[(W0, W1); 2]"), ("arr_map", "[std::collections::BTreeMap<String, W1>; 2]"),
       ("map_arr", "std::collections::BTreeMap<String, [W1; 9]>"), ("tuple_arr", "([W0; 2], [W1; 3])"), ("arr_derived", "[DS; 3]"), ("derived", "DS"), ("derived_enum", "DE"), ("derived_new", "DN"), ("derived_gen", "DG<W0, [W1; 2]>")]
    + [("tuple%d" % n, "(%s,)" % ", ".join("W%d" % i for i in range(n))) for n in range(1, 11)]
    + [("array%d" % n, "[W0; %d]" % n) for n in range(1, 33)])
EXTRA = {
    "uuid": dict(uuid="uuid::Uuid", vec_uuid="Vec<uuid::Uuid>", arr_uuid="[uuid::Uuid; 2]", opt_uuid="Option<uuid::Uuid>"),
    "chrono": dict(naivedatetime="chrono::NaiveDateTime", datetime="chrono::DateTime<chrono::Utc>", datetime_fixed="chrono::DateTime<chrono::FixedOffset>", datetime_local="chrono::DateTime<chrono::Local>", naivedate="chrono::NaiveDate", arr_date="[chrono::NaiveDate; 2]"),
    "const_generics": dict(array0="[W0; 0]", array33="[W0; 33]", array64="[W0; 64]", array1000="[W0; 1000]"),
}

HEAD = '''//! Generated witness: the types supported in one feature configuration. Never executed.
#![allow(dead_code, unused, non_local_definitions)]
use opg::models::*;
macro_rules! leaf { ($($n:ident)*) => { $( pub struct $n;
impl opg::OpgModel for $n {
    fn get_schema(_: &mut Components) -> Model { loop {} }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { loop {} }
} )* } }
leaf!(W0 W1 W2 W3 W4 W5 W6 W7 W8 W9);
#[derive(opg::OpgModel)] #[opg("a struct")] pub struct DS { a: [W2; 4], #[opg(inline)] b: [u32; 2], c: Option<[W3; 1]>, #[opg("d", nullable)] d: Vec<W4> }
#[derive(opg::OpgModel)] pub enum DE { A([W2; 4]), B { x: [W3; 31] }, C }
#[derive(opg::OpgModel)] pub struct DN([W5; 12]);
#[derive(opg::OpgModel)] pub struct DG<A, B> { a: [A; 2], b: B }
pub fn default_components() -> Components { Components::new() }
pub fn api() -> Opg { opg::describe_api! { info: { title: "t", version: "1" }, paths: { ("a" / {id: Vec<[W6; 2]>}): { GET: { summary: "s", parameters: { (query q: Vec<[W7; 3]>) }, body: Vec<[W8; 4]>, 200: Vec<[DS; 2]>, 404("no"): None } } } } }
macro_rules! probe { ($($n:ident: $t:ty;)*) => { $(
pub mod $n {
    use super::*;
    pub fn schema(cx: &mut Components) -> Model { <$t as opg::OpgModel>::get_schema(cx) }
    pub fn name() -> Option<std::borrow::Cow<'static, str>> { <$t as opg::OpgModel>::type_name() }
    pub fn with_params(cx: &mut Components, p: &ContextParams) -> Model { <$t as opg::OpgModel>::get_schema_with_params(cx, p) }
    pub fn select(cx: &mut Components, inline: bool, p: &ContextParams) -> ModelReference { <$t as opg::OpgModel>::select_reference(cx, inline, p) }
    pub fn mention(cx: &mut Components, inline: bool, p: &ContextParams) -> ModelReference { cx.mention_schema::<$t>(inline, p) }
}
)* } }
'''

A = "opg/src/lib.rs (cfg(feature) items), opg/Cargo.toml"


def features():
    t = tomllib.load(open(REPO + "/opg/Cargo.toml", "rb"))
    fs = set(t.get("features", {})) - {"default"}
    named = {x.split(":")[1] for v in t.get("features", {}).values() for x in v if x.startswith("dep:")}
    fs |= {k for k, v in t.get("dependencies", {}).items() if isinstance(v, dict) and v.get("optional") and k not in named}
    return sorted(fs)


def types(combo):
    out = dict(COMMON)
    for f in combo:
        out.update(EXTRA.get(f, {}))
    return out


def text(combo):
    return HEAD + "probe! { %s }\n" % " ".join("t_%s: %s;" % x for x in types(combo).items())


def manifest(combo, name):
    t = open(VERIF + "/witness/wgen/Cargo.toml.in").read().replace("@REPO@", REPO).replace("@NAME@", name).replace("@VERIF@", VERIF)
    return re.sub(r'features = \["uuid", "chrono"\]', "features = [%s]" % ", ".join('"%s"' % f for f in combo), t)


def probe(W, n):
    """all that can be observed of a type: [(what, run)]"""
    def schema(I):
        c = [W.call("default_components")]
        return W.term(W.call("t_%s::schema" % n, Ref(c, 0))), W.term(c[0])["schemas"]
    yield "schema", schema
    yield "name", lambda I: W.term(W.call("t_%s::name" % n), None)
    for on, ov in overrides(W)[:2]:
        def withp(I, ov=ov):
            c, p = [W.call("default_components")], [params(W, *ov)]
            return W.term(W.call("t_%s::with_params" % n, Ref(c, 0), Ref(p, 0))), W.term(c[0])["schemas"]
        yield "schema with overrides=" + on, withp
        for how in ("mention", "select"):
            for inl in (0, 1):
                def ref(I, ov=ov, how=how, inl=inl):
                    c, p = [W.call("default_components")], [params(W, *ov)]
                    r = W.call("t_%s::%s" % (n, how), Ref(c, 0), inl, Ref(p, 0))
                    return W.term(r), W.term(c[0])["schemas"]
                yield "%s inline=%d overrides=%s" % (how, inl, on), ref


def c24(cx, rep):
    fs = features()
    combos = [c for n in range(len(fs), -1, -1) for c in itertools.combinations(fs, n)]
    if len(fs) > 4:
        combos = [c for c in combos if len(c) in (0, 1, len(fs) - 1, len(fs)) or set(c) <= set(EXTRA)]
    worlds = {}
    for c in combos:
        nm = "wfeat_" + "_".join(c) if c else "wfeat_none"
        label = "+".join(c) or "no features"
        try:
            d = build.dump(build.stage(nm, {"src/lib.rs": text(c), "Cargo.toml": manifest(c, nm)}, template="wgen"), [nm], tag=nm)
        except BuildError as e:
            from runner import last_errors
            rep.add("builds with " + label, False, last_errors(e.log), A)
            continue
        rep.add("builds with " + label, True, "", A)
        j = build.load(d[nm])
        cx.inputs.append("%s: %d functions of the resolved program" % (nm, len(j["fns"])))
        worlds[c] = World(j)
    for t in sorted({x for c in combos for x in types(c)}):
        have = [c for c in combos if c in worlds and t in types(c)]
        if len(have) < 2:
            continue
        ref = {}
        W0 = worlds[have[0]]
        for what, run in probe(W0, t):
            got = list(W0.I.explore(run, 4))
            ref[what] = got[0] if len(got) == 1 else ("split", None, None, None)
        for c in have[1:]:
            W = worlds[c]
            for what, run in probe(W, t):
                st, v = ref[what][0], ref[what][1]
                if st != "ok":
                    rep.undecided("%s: %s" % (t, what), "not understood with %s: %s %s" % ("+".join(have[0]), st, v))
                    continue
                scenario(rep, W, "%s: %s, %s as %s" % (types(c)[t], what, "+".join(c) or "no features", "+".join(have[0])), run, lambda x, v=v: diff(x, v, what), A, refine=False)
    full = combos[0]
    if full in worlds:
        W0 = worlds[full]
        ref = list(W0.I.explore(lambda I: W0.term(W0.call("api")), 4))
        for c in combos[1:]:
            if c in worlds and len(ref) == 1 and ref[0][0] == "ok":
                W = worlds[c]
                scenario(rep, W, "describe_api!, %s as %s" % ("+".join(c) or "no features", "+".join(full)), lambda I, W=W: W.term(W.call("api")), lambda x: None if repr(x) == repr(ref[0][1]) else diff(x, ref[0][1], "document") or "differs", A, refine=False)
            else:
                rep.undecided("describe_api!, %s" % "+".join(c), str(ref)[:300])
