"""One entry per claimed property: the analyses that decide it and how they are described."""


def core(name):
    def f(cx, rep):
        import core_checks
        core_checks.THOROUGH = cx.thorough
        W = cx.world()
        getattr(core_checks, name)(W, rep)
        rep.visited |= {("wcore", x) for x in W.I.visited}
    f.__name__ = name
    return f


def api(name):
    def f(cx, rep):
        import macro_gen, macro_checks
        macro_gen.set_words(cx.lib_words())
        wit = macro_gen.build(cx.thorough)
        W = cx.generated("wmacro", macro_gen.crate_text(wit), macro_checks.MWorld, "describe_api! expansions")
        getattr(macro_checks, name)(W, rep, wit)
        rep.visited |= {("wmacro", x) for x in W.I.visited}
    f.__name__ = name
    return f


def types(cx, rep):
    import type_gen, macro_checks
    from world import World
    import macro_gen
    macro_gen.set_words(cx.lib_words())
    wit = type_gen.build(cx.thorough)
    W = cx.generated("wtype", type_gen.crate_text(wit), World, "describe_type! expansions")
    macro_checks.c12(W, rep, wit)
    rep.visited |= {("wtype", x) for x in W.I.visited}


def cases(cx, rep):
    import case_checks
    case_checks.c14(cx, rep)


def effects(cx, rep):
    import effect_checks
    effect_checks.c21(cx, rep)


def derive(prop, *fams, **kw):
    import derive_checks
    return derive_checks.check(prop, fams, **kw)


def feats(cx, rep):
    import feat_checks
    feat_checks.c24(cx, rep)


def graphs(prop):
    import graph_checks
    return graph_checks.check(prop)


def ignored(cx, rep):
    import derive_checks
    derive_checks.ignored(cx, rep)


def compiles(name):
    def f(cx, rep):
        import compile_checks
        getattr(compile_checks, name)(cx, rep)
    f.__name__ = name
    return f


AI = "abstract interpretation of the compiler's MIR"
OTHER = "other"

CHECKS = {
    "C01": dict(
        run=[core("c01"), api("c01"), graphs("C01")], floor=dict(quick=6000), level=OTHER, technique=AI + " over all mention sequences of a partition of type graphs",
        rule="after any sequence of type requests every emitted Link names an entry of the registry, and no earlier entry disappears",
        explain="MIR of the registry and of every OpgModel implementation is evaluated on abstract types with opaque names; every reference in the results and in every registered schema is looked up in the resulting registry",
        note="Exhaustive over the modelled wrappers, graph shapes, override and inline combinations; opaque type names make each obligation hold for every name. Unmodelled std calls are reported undecided, not violated."),
    "C02": dict(
        run=[core("c02")], floor=dict(quick=5500), level=OTHER, technique=AI + ", all reference positions to a nesting bound",
        rule="verification returns Err(name) iff a dangling Link(name) occurs at some position of a registered schema",
        explain="the verifier's MIR is evaluated on abstract registries that place one opaque reference at every position of every constructor chain up to the nesting bound, among resolving decoys; on arbitrary registries (schemas that take shape only where the verifier looks, every constructor tried); on 5000 sampled registries; and on deep chains and wide registries around every size the library mentions",
        note="Complete for constructor chains up to depth 3 (4 thorough) and for arbitrary schemas of up to 2 members per collection; deeper nesting follows because the traversal is structurally recursive, which is not itself proved."),
    "C03": dict(
        run=[core("c03"), graphs("C03")], floor=dict(quick=1800), level=OTHER, technique=AI + " with a call-depth bound on cyclic type graphs",
        rule="requesting any node of a cyclic type graph reaches a return, expands each named type once and leaves only complete schemas registered",
        explain="each entry of a family of mutually recursive types (direct, through Box, Option, arrays, maps, tuples, several components) is requested abstractly; expansions per named type are counted",
        note="Decides the registry's part of termination: the type graphs are a partition of cycle shapes, not all programs."),
    "C04": dict(
        run=[core("c04")], floor=dict(quick=25), level=OTHER, technique=AI,
        rule="registering under an occupied name is the identity on the registry; under a free name it adds exactly the given entry; the returned name is the given name",
        explain="the registration entry points are evaluated on abstract registries with opaque names, with the new name equal to each existing one or fresh",
        note="Names are opaque; entries are arbitrary (every constructor the code looks for is tried) and, beside that, sampled; registry sizes 0 to 4."),
    "C05": dict(
        run=[core("c05")], floor=dict(quick=2300), level=OTHER, technique=AI + " compared with an independent transfer function",
        rule="apply_params yields the input schema with exactly the present and applicable parameters replaced",
        explain="all 2^5 presence combinations of parameters against every schema constructor with present/absent own fields, opaque contents",
        note="Exhaustive over constructors and presence combinations; one arbitrary schema with arbitrary overrides, as far as the code tells them apart; sampled schemas whose texts may coincide or whose own values are given again, in another order."),
    "C06": dict(
        run=[core("c06")], floor=dict(quick=400), level=OTHER, technique=AI,
        rule="merge yields the union or an error on a clash, never replaces; add_property stores once",
        explain="merge, try_merge and add_property are evaluated on object schemas with opaque property names in every overlap pattern",
        note="Up to 2 properties per side (3 thorough), every equality pattern between names; sampled and arbitrary objects of up to 5 properties."),
    "C07": dict(
        run=[core("c07")], floor=dict(quick=300), level=OTHER, technique=AI + " of the Serialize implementations into an abstract serializer",
        rule="the serializer calls made for a document value spell the OpenAPI 3.0.3 object of that value",
        explain="Serialize implementations (derived and hand-written) are evaluated against an abstract serializer; the resulting key/value tree is compared with an independently written OpenAPI layout",
        note="All presence combinations of optional fields per object kind, opaque contents, sizes 0 to 2 for collections; sampled documents of every kind beside them."),
    "C08": dict(
        run=[core("c08")], floor=dict(quick=1050), level=OTHER, technique=AI + " against a table of serde's JSON shapes",
        rule="schema of each built-in type equals the schema of the JSON its Serialize implementation writes; it is never a named reference",
        explain="each built-in OpgModel implementation is evaluated with opaque element types in each request mode",
        note="Exhaustive over the supported built-in types; the JSON shapes are a frozen table of serde's documented data model."),
    "C09": dict(
        run=[core("c09")], floor=dict(quick=1100), level=OTHER, technique=AI,
        rule="wrapper and inner type give equal schema, name and reference in each request mode; Option differs in nullable only",
        explain="each wrapper around an opaque type is evaluated side by side with the bare type",
        note="Exhaustive over the supported wrappers and their nestings of depth 2; the wrapped schema is opaque, arbitrary (every constructor looked for is tried) and sampled."),
    "C10": dict(
        run=[api("c10")], floor=dict(quick=480), level=OTHER, technique=AI + " of expanded describe_api! witnesses",
        rule="the value built by a describe_api! expansion equals the document its clauses spell",
        explain="generated invocations put every clause kind alone, before and after every other kind of its block, and all together, with opaque expressions; rustc expands and type-checks them, the expansion's MIR is evaluated abstractly and the whole document compared with an independently built one",
        note="Macro expansion depends on token shapes only, so a witness per clause form and ordered pair of forms stands for all documents of that shape; interactions of three or more clauses are covered by the combined witnesses only."),
    "C11": dict(
        run=[api("c11")], floor=dict(quick=410), level=OTHER, technique=AI + " of expanded describe_api! witnesses",
        rule="each path item of the built document (callbacks included) has exactly one required path parameter per placeholder, with the placeholder's name and declared type, and the declared segments in order",
        explain="the path templates and path-located parameters of every witness document are compared with the declared segments; placeholder names that meet other parameter names are covered by specialising opaque names",
        note="All placeholder forms in every position of templates up to four segments."),
    "C12": dict(
        run=[types], floor=dict(quick=440), level=OTHER, technique=AI + " of expanded describe_type! witnesses",
        rule="the model built by a describe_type! expansion equals the schema written",
        explain="generated invocations cover every form with every subset of its optional parts, every required-flag pattern and nestings of depth 3; their MIR is evaluated and compared with the written schema",
        note="Literals are distinct per position, raw models and links opaque."),
    "C13": dict(
        run=[derive("C13", "names")], floor=dict(quick=1900), level=OTHER, technique=AI + " of derived witnesses against an independent model of serde's naming",
        rule="property keys, required names, enum values and tag values of a derived schema are the names serde writes",
        explain="a generated family of items applies every rename-all spelling (one- and two-sided) and every form of rename to containers, variants and fields under every tagging mode, with identifiers of every case shape, raw identifiers and every string the derive's own MIR mentions; the MIR of the generated implementations is evaluated and the names compared with serde's documented rules",
        note="Expansion is per item; the family covers every attribute form and pair of levels, identifiers are representatives of their case shape (conversion itself is C14)."),
    "C14": dict(
        run=[cases, derive("C14", "names")], floor=dict(quick=40000), level=OTHER, technique=AI + " of the conversion functions over words of abstract characters",
        rule="for each rule spelling, the conversion of every word equals serde's conversion of that word",
        explain="the derive's own MIR is evaluated: the rule parser on each spelling, the field and the variant conversion on every sequence of character classes up to the bound; a comparison with a constant or between characters is re-analysed with the characters specialised to it",
        note="All class sequences up to length 4, and up to 6 over the main ones (7 thorough), and a few long ones; the characters themselves are arbitrary members of their class. Words serde itself cannot convert are left out."),
    "C15": dict(
        run=[derive("C15", "skip")], floor=dict(quick=2000), level=OTHER, technique=AI + " of derived witnesses",
        rule="members marked skip or skip_serializing contribute nothing to schema and registry, all others appear exactly once and in order",
        explain="every subset of skipped members of structs, tuple structs, string, repr and tagged enums, and of the members of their variants, with the registry compared as well",
        note="Up to four members per level; members are handled one by one by the derive."),
    "C16": dict(
        run=[derive("C16", "required")], floor=dict(quick=1900), level=OTHER, technique=AI + " of derived witnesses",
        rule="required is exactly the set of serialized names of members neither optional nor conditionally skipped, plus tags, each once",
        explain="every ordered pair of member states in structs and in struct variants of every tagging mode, and sizes up to 40 members",
        note="Order of the list is not judged."),
    "C17": dict(
        run=[derive("C17", "enums")], floor=dict(quick=1900), level=OTHER, technique=AI + " of derived witnesses",
        rule="the schema constructor tree of a derived enum is the one of its serde representation",
        explain="every sequence of up to three variant shapes under every tagging mode, inner types of every kind, every primitive repr with explicit, implicit and negative discriminants, sizes up to 33 variants",
        note="Descriptions and other values are left to C18."),
    "C18": dict(
        run=[derive("C18", "attrs")], floor=dict(quick=2000), level=OTHER, technique=AI + " of derived witnesses",
        rule="description, format, example, explicit type and nullability of every schema node equal the written ones (field before variant or wrapper) and are absent elsewhere",
        explain="every subset of attributes on fields, containers, single-field structs (container x field) and variants (variant x field) in every tagging mode, every explicit type, four attribute layouts; the complete schema and registry are compared",
        note="A member documented by reference shows only the reference."),
    "C20": dict(
        run=[derive("C20", "inline", mention=True)], floor=dict(quick=8000), level=OTHER, technique=AI + " of derived witnesses",
        rule="a mention of a derived type is a reference under its identifier iff neither type, variant nor member asks for inlining; overrides change embedded copies only",
        explain="every combination of the inline flag on type, variant and member for every kind of derived type, mentioned from every kind of member with and without overrides; references, embedded schemas and the registry are compared",
        note="Registry behaviour with equal names of different types is C26."),
    "C21": dict(
        run=[effects], floor=dict(quick=2500), level=OTHER, technique="effect analysis over the call graph, and " + AI + " under opposite hash orders",
        rule="no function of the library, the derive or generated code calls a nondeterministic or stateful operation; outputs do not depend on the iteration order of hash containers; keyed sections come out sorted",
        explain="every function of the resolved program is scanned for calls into clocks, environment, randomness, threads, addresses and mutable statics; every serialization, describe_api! document and derived schema is evaluated under two opposite hash iteration orders and compared as emitted; iteration of hash containers inside the derive may only reach consumers that ignore the order",
        note="The effect list is closed (listed in effect_checks.py); functions of dependencies below the called ones are not scanned."),
    "C23": dict(
        run=[compiles("c23")], floor=dict(quick=1500), level=OTHER, technique="compile-pass and compile-fail witnesses with accepted twins",
        rule="each macro form type-checks in a module without imports where the library's names are shadowed; each form lacking a mandatory part fails to type-check while its twin passes",
        explain="the witness invocations of C10 and C12 are type-checked in a module that imports nothing and shadows every library name, in editions 2018 and 2021; the rejected forms are each compiled beside a twin that differs only in the offending part",
        note="Type checking decides; the forms are the enumerated grammar of both macros."),
    "C19": dict(
        run=[compiles("c19"), ignored], floor=dict(quick=9000), level=OTHER, technique="compile-fail witnesses with exactly one mistake each, and accepted twins",
        rule="each derive input with one unknown, duplicated, malformed or unsupported part makes rustc report an error at that item; each input of well-formed known parts compiles",
        explain="every mistake of the grammar (unknown word, wrong kind of value, duplicate, malformed list; also every word the derive itself contains) is put at every container, variant and member place of every kind of item, alone and among other attributes; every known attribute and every serde attribute outside the schema is accepted at every place",
        note="rustc expands the current derive on each input; an input counts as rejected when an error is reported on it. Unknown rename_all rules and contradicting tagging attributes are left to serde's own derive."),
    "C24": dict(
        run=[feats], floor=dict(quick=5000), level=OTHER, technique="compile witnesses per feature set and abstract interpretation of the compiler's MIR, compared between feature sets",
        rule="the library and a crate using every type of the configuration type-check under each feature set; each type supported in several sets has the same schema, name and reference in all of them",
        explain="all subsets of the features found in opg/Cargo.toml are built; for each type (arrays of 1 to 32 elements, arrays inside other types, derived types, describe_api! with arrays) schema, name and references are derived from the MIR of each configuration and compared",
        note="Exhaustive over feature sets; element types are opaque leaves."),
    "C25": dict(
        run=[compiles("c25")], floor=dict(quick=8000), level=OTHER, technique="type-level witnesses: compile-pass and compile-fail uses of derived generic types",
        rule="each derived generic item type-checks; `need::<X<Arg>>()` type-checks for every argument whose serialized occurrences are documentable and is rejected for every other",
        explain="parameter lists (plain, bounded, defaulted, where clauses, lifetimes, const parameters) times member types over the parameter times kinds of item and tagging times serialized or skipped; rustc's trait solver decides for each argument whether the derived implementation applies",
        note="Members name the parameter itself, a type built from it, or T::Assoc; parameters hiding prelude names are outside."),
    "C22": dict(
        run=[core("c22")], floor=dict(quick=700), level=OTHER, technique=AI + " with fault injection in the abstract serializer",
        rule="for every serializer operation of every document, failing it makes the whole serialization return that error with no operation after it; no panic is reachable",
        explain="the abstract serializer fails at the n-th operation for every n; the result must be the error and no further serializer operation may happen; verification, merging and overriding are checked to be panic free on all their obligations",
        note="Covers every fault position of the modelled documents."),
    "C26": dict(
        run=[core("c26"), api("c26"), graphs("C26")], floor=dict(quick=5000), level=OTHER, technique=AI,
        rule="the schema registered under a type's name equals the schema of the type, whichever wrapper mentions it first",
        explain="each wrapper and override combination mentions an opaque type first, second or alone; the registered schema is compared with the type's own",
        note="Recorded finding: an Option mentioned first registers the nullable schema."),
}

NOT_APPLICABLE = {}
