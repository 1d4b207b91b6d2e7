#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the JSON stays well-formed)."""
import json, os
M, L, X = "opg/src/models.rs", "opg/src/lib.rs", "opg/src/macros.rs"
A, T, O, B, K, P, S, D = ("opg_derive/src/attr.rs", "opg_derive/src/ast.rs", "opg_derive/src/opg.rs",
    "opg_derive/src/bound.rs", "opg_derive/src/case.rs", "opg_derive/src/parsing_context.rs",
    "opg_derive/src/symbol.rs", "opg_derive/src/dummy.rs")
out = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    out.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=state or [],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Every schema reference the generator emits resolves in the same document",
  "In any document generated from an API description and model types, every schema reference that the generator itself emits (in parameters, request bodies, responses, callbacks or inside other schemas) names a schema registered in that same document once generation has finished. Asking the registry for a type either returns the type's schema inline, or returns a reference and leaves that type's schema registered under exactly the referenced name. Nothing registered is ever dropped while more types are requested.",
  ["programs", "histories"], "every set of model types, nesting and order in which they are mentioned",
  "the suite mentions a handful of types once each in one order and compares one document; it cannot quantify over type graphs, mention orders or macro clauses",
  [M, X, O], [("Components::mention_schema registers what it links to", M), ("OpgModel::select_reference is the only producer of links", M), ("generated code and the macros obtain references only through the registry", O)],
  ["components.schemas and every $ref of the serialized document"])
p("C02", "Schema verification reports exactly the dangling references",
  "Verifying the registered schemas succeeds if and only if every reference located anywhere inside a registered schema (array items, object properties, additional properties, members of oneOf, allOf and anyOf, and everything below inlined schemas, at any depth) names a registered schema. When it fails, the reported name is one of the dangling references.",
  ["inputs"], "every registry content, every nesting of schema constructors",
  "two tests: one registry with a valid link and one with a dangling link directly under a property; no other position or nesting is sampled",
  [M], [("verify_schemas / traverse recursion over the schema tree", M), ("TraverseContext::check looks the link up", M)],
  ["result of Components::verify_schemas"])
p("C03", "Schema generation terminates on recursive types and expands each type once",
  "Requesting the schema of a type that contains itself, directly or through other types, by reference finishes for every such type graph, unless a cycle consists of embedding only (inline requests, internally tagged newtype variants), for which no finite schema exists. Each named type is expanded at most once per registry, and after the request no unfinished schema remains registered: each registered schema is the complete one.",
  ["programs", "histories"], "every (mutually) recursive type graph whose cycle passes through a non-inlined mention",
  "the only recursive type in the suite is in a function that is not registered as a test",
  [M, O, X], [("mention_schema reserves the name before expanding the type", M), ("links are chosen without expanding the type", M)],
  ["termination of get_schema / mention_schema, components.schemas afterwards"])
p("C04", "First registration wins: registering never alters an existing entry",
  "Registering a schema or a security scheme under a name that is already registered leaves the existing entry and all other entries unchanged. Registering under a free name stores exactly the given schema or scheme under that name, and the name returned for a mentioned security scheme is the name given.",
  ["inputs", "histories"], "every registry content and every sequence of registrations",
  "the suite never registers the same name twice",
  [M], [("add_model vacant-entry insert", M), ("mention_schema / mention_security_scheme contains check", M)],
  ["components.schemas, components.security_schemes"])
p("C05", "In-place overrides change exactly what they name",
  "Applying usage-site parameters to a schema sets exactly the parameters that are present: description on any schema, nullability on any single-typed schema, format and example on string, number and integer schemas, allowed values on string schemas. Every absent parameter and everything the parameter does not name, including nested schemas, stays as it was.",
  ["inputs"], "every schema and every subset of overrides with arbitrary values",
  "the suite applies description alone, nullable alone and one example; 32 subsets times 6 type kinds times oneOf/allOf/anyOf are not sampled",
  [M], [("apply_params on Model, ModelData, ModelType, ModelTypeDescription, ModelString, ModelSimple", M)],
  ["Model::apply_params, OpgModel::get_schema_with_params"])
p("C06", "Merging or extending object schemas never loses or overwrites anything",
  "Merging one object schema into another yields all properties, all required names and the additional-properties schema of both, or reports an error when both define the same property (or both define additional properties); an existing property is never replaced and merging with anything that is not an object schema is an error. Adding a property stores it, marks it required exactly when asked, and is an error that changes nothing when the property already exists.",
  ["inputs"], "every pair of object schemas, overlapping or not",
  "merging is only reached indirectly for one disjoint pair; conflicts, non-objects and additional properties are never sampled",
  [M], [("ModelObject::merge / add_property, Model::try_merge", M)],
  ["result and receiver after try_merge, merge, add_property"])
p("C07", "Documents serialize to the OpenAPI 3.0.3 object layout",
  "Every value of the document model serializes to the OpenAPI 3.0.3 layout: each populated field appears under its specified key at its specified place with its own value, each absent optional field is omitted (never written as null), and the keys OpenAPI requires are always present. Schema references serialize as a single $ref key under the component-schemas prefix, untyped schemas as an empty object, path keys as slash-separated segments with placeholders in braces.",
  ["inputs"], "every document value: every combination of present and absent fields, every enum variant, arbitrary strings",
  "a few golden YAML documents fix some combinations; parameters in cookies, several HTTP methods, allOf/anyOf, absent body descriptions and most absent/present combinations never occur",
  [M, L], [("derive(Serialize) attributes and the serialize_* helpers", M), ("Serialize impls of RequestBody, Response, HttpMethod", M)],
  ["serialized form of Opg and every nested object"])
p("C08", "Built-in types are described by the JSON shape they serialize to",
  "Every supported standard-library type, and uuid/chrono types when enabled, is described by the JSON type its values serialize to: integers and floats with their width as format, strings and characters, booleans, sequences, sets, arrays and tuples as arrays of exactly their element types in order, maps as objects whose additional properties are the value type, unit as null. None of them is ever emitted as a named reference, and element types are requested by reference.",
  ["programs"], "every supported built-in type constructor, every element type",
  "the suite checks String, i32, u64, one pair, one map and unit; atomics, most tuples, collections and arrays are not covered",
  [L, X], [("impl_opg_model! invocations and the hand-written impls", L), ("describe_type! primitive arms", X)],
  ["get_schema / mention_schema of each type"])
p("C09", "Smart pointers and cells are transparent; Option adds only nullability",
  "A reference, Box, Rc, Arc, Cell or RefCell around a type is documented exactly like the type itself: same schema, same name, same choice between reference and inline. An Option around a type has the same name and the same schema except that a single-typed schema is nullable.",
  ["programs"], "every wrapped type, every nesting of wrappers",
  "one boxed optional integer and one nested optional are sampled",
  [L, X], [("generic_simple arms of impl_opg_model!", X)], ["get_schema, type_name, mention_schema of wrapped types"])
p("C10", "The API description macro records every clause where it was written",
  "A document built with the API description macro contains each clause exactly as written and nothing else: info, tags, servers, security schemes, paths in order, and per path and operation the summary, description, operation id, deprecation, tags, parameters with their location and flags, request body, each response with its description (or the canonical reason of its status code) and schema, security requirements with their roles, and callbacks. Clauses may come in any order and combination without influencing each other.",
  ["programs"], "every combination and order of clauses the macro accepts, arbitrary literal and variable values",
  "one document is checked; named callbacks, roles, cookie/body variants, parameter flags and most orders never occur",
  [X, M], [("describe_api! token-muncher arms", X), ("Operation setters", M)], ["Opg value returned by the macro"])
p("C11", "Every path placeholder has a matching required path parameter",
  "A path template in a generated document lists the declared segments in order, and for every placeholder the path item (or callback path item) carries a parameter with exactly the placeholder's name, located in the path, required, and with the declared type's schema, unless the description itself redeclares that name. No path parameter exists without a placeholder.",
  ["programs"], "every sequence of literal, typed and named segments, at top level and in callbacks",
  "two paths with one placeholder each are sampled",
  [X, M], [("@opg_path_url / @opg_path_insert_url_param arms", X), ("serialize_path_elements", M)], ["paths and callbacks of the document"])
p("C12", "Hand-written type descriptions yield exactly the described schema",
  "The type description macro yields exactly the schema that is written: the type, the optional description, format, example and allowed values, array items, and for objects every property with its own schema and exactly the properties flagged required, in order. Links yield references with exactly the given name, and raw models are used unchanged.",
  ["programs"], "every description accepted by the macro, arbitrary literals and nesting",
  "one object with seven properties is checked",
  [X], [("describe_type! arms", X)], ["Model value returned by the macro"])
p("C13", "Documented names are the names serde writes",
  "The property names, enum values and tag values in a derived schema are the names serde uses when serializing the type: an explicit rename (including the serialize half of a two-sided rename) wins, otherwise the rename-all rule of the directly enclosing container or variant is applied to the identifier without raw prefix. A rename-all rule on an enum renames variants only, one on a variant renames that variant's fields only, and deserialize-only renames have no effect. (serde's flatten, transparent, rename_all_fields and a tag on a struct are not interpreted by the derive and lie outside.)",
  ["programs"], "every identifier, every combination of rename and rename_all attributes on containers, variants and fields",
  "the suite uses rename_all alone on a few types and never a two-sided rename or a rename overriding a rule",
  [A, T, O, K], [("Name::from_attrs and rename_as_*", A), ("Container::from_ast applies rules", T)], ["property keys, enum values and required lists of derived schemas"])
p("C14", "Case conversion agrees with serde for every identifier",
  "For every rename-all rule known to the derive and every identifier, the converted field or variant name equals the name serde produces for that rule, and every rule spelling serde's rename-all accepts (except the identity-only ones) selects the conversion of the same name. Identifiers serde itself cannot convert are outside.",
  ["inputs"], "every rule and every identifier",
  "two unit tests check four identifiers per rule; leading, trailing and repeated underscores, digits and runs of capitals are not covered",
  [K], [("RenameRule::apply_to_variant / apply_to_field / from_str", K)], ["names in derived schemas"])
p("C15", "Skipped fields and variants never appear, all others always do",
  "A field or variant that serde never serializes is absent from the derived schema: it contributes no property, no required name, no tuple element, no enum value, no alternative, and its type is not registered. Every other field and variant appears exactly once, in declaration order where order is visible.",
  ["programs"], "every struct, tuple and enum shape and every subset of skipped members",
  "no test skips anything",
  [A, T, O], [("skip_serializing filters", O), ("skip / skip_serializing parsing", A)], ["derived schema and registry"])
p("C16", "Required lists name exactly the properties that are always written",
  "In a derived object schema a property is listed as required if and only if its field is neither marked optional nor conditionally skipped; the tag of an internally or adjacently tagged enum is always required. Every required name is a property of the same object and is listed once.",
  ["programs"], "every struct or struct-variant and every subset of optional / conditionally skipped fields",
  "two tests mark one field optional; conditional skipping and enum variants are not covered",
  [A, O], [("optional = skip_serializing_if or opg(optional)", A), ("push_required", O)], ["required lists of derived schemas"])
p("C17", "Derived enum schemas follow serde's tagging mode",
  "The schema of a derived enum has the shape of its serde representation: a string enumeration for unit-only externally tagged enums (integer alternatives carrying the discriminants under a primitive repr), one alternative per variant for untagged enums, an object with additional properties for externally tagged ones, one object per variant carrying a tag property restricted to that variant's name for internally tagged ones, and an object with tag and content properties for adjacently tagged ones. Within each, a newtype variant is described by its inner type (next to the tag object where the tag cannot be a property of it), a tuple variant by an array, a struct variant by an object and a unit variant by its name (or by the bare tag), and the content of an adjacently tagged enum is required only if every variant writes one.",
  ["programs"], "every enum: tagging mode x variant shapes x attributes",
  "one enum per tagging mode is sampled, none with a struct variant under adjacent tagging or unit variants under internal or adjacent tagging",
  [A, O], [("decide_tag / decide_model_type", A), ("serialize_*_enum", O)], ["derived schema of enums"])
p("C18", "Derive attributes take effect exactly where they are written",
  "A description, format, example, explicit type or nullability written on a derived type or on one of its fields shows up in the schema of that type or that field and nowhere else, with exactly the written value; on a single-field wrapper the field's attributes win over the wrapper's, and a variant's description, format and example apply to its single field unless the field has its own. A member documented by reference shows the reference only, nullability concerns single-typed schemas only, and without attributes nothing is added.",
  ["programs"], "every placement and combination of attributes, arbitrary values",
  "a few single attributes are sampled; combinations and precedence are not",
  [A, O], [("ContextParams::from / or / tokenize / split", O), ("attribute parsing", A)], ["derived schemas"])
p("C19", "Wrong derive input is always a compile error, right input never",
  "Every unknown opg attribute, every duplicated attribute, every attribute value of the wrong kind (of opg attributes and of the serde attributes the derive reads) and every unsupported item (union, unit struct, untagged unit-only enum, partly explicit discriminants) makes compilation fail; an implementation is never produced after a problem was found. Input whose attributes are all known and well-formed is accepted, and attributes that belong to serde but do not concern the schema are ignored. Unknown rename-all rules and contradicting tagging attributes are left to serde's own derive.",
  ["programs"], "every attribute list on containers, variants and fields",
  "no test contains an invalid attribute, and a unit test of a passing compilation cannot contain one",
  [A, T, O, P], [("error_spanned_by / check", P), ("attribute matching arms", A)], ["success or failure of derive expansion"])
p("C20", "A derived type is linked by its name unless inlining is requested",
  "A derived type without the inline flag is documented by reference under its own identifier, and is inlined only where the mentioning field or variant asks for inlining; a derived type with the inline flag never appears as a registered schema and is embedded at every mention. Embedding applies the mentioning site's overrides to the embedded copy only.",
  ["programs"], "every combination of inline flags on type, variant and field, every mention site",
  "one inlined field is sampled; the container flag never",
  [O, M], [("implement_type", O), ("select_reference", M), ("field_model_reference inline argument", O)], ["references in derived schemas, components.schemas"])
p("C21", "Generated documents are deterministic",
  "Building and serializing the same description yields the same document on every run: nothing in the document depends on hash iteration order, time, randomness, environment, addresses, threads or state left by earlier documents, and the code the derive generates is equally reproducible. Sections with declaration order keep it; keyed sections are sorted by key.",
  ["histories", "schedules", "configurations"], "every run, thread and process",
  "a test run samples one execution; a hash-order dependence may show up once in many runs",
  [M, X, O, B], [("BTreeMap / Vec containers in the document model", M), ("HashSet used for membership only", B)], ["serialized document, derive output"])
p("C22", "Output errors are propagated and serialization never panics",
  "If the output serializer fails at any point while a document is being written, serialization stops and returns that error; no error is swallowed and no truncated document is reported as success. Serializing, verifying, merging and overriding never panic for any document value.",
  ["fault_sequences", "inputs"], "every position at which the output can fail, every document value",
  "tests serialize into memory, which never fails",
  [M], [("? / try_for_each on every serializer call", M)], ["Result of Serialize::serialize"])
p("C23", "The description macros need nothing imported at the call site",
  "Every form the API and type description macros accept compiles in a module that imports nothing from the library and defines items of its own with the library's names, referring to the library by its crate path only. A form that lacks a mandatory part (for example a request body without a schema or a security scheme without its kind) does not compile.",
  ["programs"], "every macro form in every calling scope",
  "the suite always glob-imports the library and uses about half of the forms",
  [X], [("$crate paths", X), ("ParameterNotSpecified placeholders", M)], ["compilation of macro uses"])
p("C24", "Every feature combination builds and documents arrays alike",
  "The library compiles with every combination of its optional features, and types supported in several configurations are described identically in each: fixed-size arrays have the same schema with and without const generics, and enabling uuid or chrono only adds types.",
  ["configurations"], "all 8 feature combinations",
  "the workspace build unifies features, so only one combination is ever compiled",
  [L, "opg/Cargo.toml"], [("cfg(feature) items", L)], ["compilation and schema of [T; N] per configuration"])
p("C25", "Deriving works for every generic type and demands only what it uses",
  "Deriving on a type with lifetimes, bounded or defaulted type parameters, where clauses or const parameters produces an implementation that compiles and applies exactly when the types of its serialized members can be documented. It demands that the parameters (and associated types of parameters) occurring in serialized members are documentable and nothing else: parameters that occur only in skipped members need not be.",
  ["programs"], "every generic parameter list and member type",
  "two simple generic structs are sampled",
  [B, O], [("without_default / with_bound", B), ("build_generics", O)], ["compilation of derived impls and their use"])
p("C26", "The schema registered under a name is that type's own schema",
  "The schema stored under a type's name is the schema of that type itself, whichever wrapper, reference or field mentions it first and whatever overrides the mentioning site carries. Two different types never share one registered schema.",
  ["histories", "programs"], "every order of mentions, every wrapper around the first mention, every pair of types",
  "each type is mentioned once in the suite",
  [M, X, O], [("mention_schema registers get_schema of the mentioned type", M), ("type_name of wrappers and derived types", X)], ["components.schemas"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
print(len(out))
