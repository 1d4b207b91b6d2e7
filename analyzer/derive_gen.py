"""Items with #[derive(OpgModel)] and the schemas they must denote.

An item is a structured description (shape, members, attributes).  From it come both the Rust text, which rustc
expands with the current derive, and - independently - the schema the properties promise."""
import itertools
from world import E, Any
import serde_case
from serde_case import RULES


def rs(s):
    out = ""
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\t":
            out += "\\t"
        elif ord(c) < 32 or ord(c) > 126:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return '"%s"' % out


def raw(i):
    return i[2:] if i.startswith("r#") else i


class A:
    """attributes of a container, variant or field"""

    def __init__(self, desc=None, format=None, example=None, ewith=None, nullable=False, inline=False, optional=False, explicit=None,
                 rename=None, rename_all=None, skip=None, skip_if=False, extra=(), opgextra=(), layout=0, pre="", **kw):
        self.__dict__.update(locals())
        del self.self, self.kw
        self.__dict__.update(kw)

    @property
    def skipped(self):
        return self.skip in ("skip", "skip_serializing")

    def ser_name(self):
        return self.rename[0] if isinstance(self.rename, tuple) else self.rename

    def rule(self):
        return self.rename_all[0] if isinstance(self.rename_all, tuple) else self.rename_all

    @property
    def exval(self):
        return self.ewith[1] if self.ewith else self.example

    def serde(self):
        out = []
        for k, v in (("rename", self.rename), ("rename_all", self.rename_all)):
            if isinstance(v, tuple):
                parts = [n + " = " + rs(x) for n, x in (("serialize", v[0]), ("deserialize", v[1])) if x is not None]
                if len(v) > 2:
                    parts.reverse()
                out.append("%s(%s)" % (k, ", ".join(parts)))
            elif v is not None:
                out.append("%s = %s" % (k, rs(v)))
        if self.skip:
            out.append(self.skip)
        if self.skip_if:
            out.append("skip_serializing_if = " + rs("crate::no" if self.skip_if is True else self.skip_if))
        return out + list(self.extra)

    def opg(self):
        out = []
        if self.desc is not None:
            out.append(rs(self.desc))
        if self.format is not None:
            out.append("format = " + rs(self.format))
        if self.example is not None:
            out.append("example = " + rs(self.example))
        if self.ewith:
            out.append("example_with = " + rs(self.ewith[0]))
        for f in ("nullable", "inline", "optional"):
            if getattr(self, f):
                out.append(f)
        if self.explicit:
            out.append(self.explicit)
        return out + list(self.opgextra)

    def text(self):
        s, o = self.serde(), self.opg()
        l = self.layout % 4
        if l in (1, 3):
            s.reverse()
            o.reverse()
        ss = ["#[serde(%s)]" % x for x in s] if l >= 2 else (["#[serde(%s)]" % ", ".join(s)] if s else [])
        oo = ["#[opg(%s)]" % x for x in o] if l >= 2 else (["#[opg(%s)]" % ", ".join(o)] if o else [])
        both = oo + ss if l & 1 else ss + oo
        return self.pre + "".join(x + " " for x in both)


class F:
    def __init__(self, ident, ty, a=None, **kw):
        self.ident, self.ty, self.a = ident, ty, a or A(**kw)

    def name(self, rule):
        n = self.a.ser_name()
        return n if n is not None else serde_case.field(rule, raw(self.ident))


class V:
    def __init__(self, ident, shape, fields=(), a=None, disc=None, **kw):
        self.ident, self.shape, self.fields, self.a, self.disc = ident, shape, list(fields), a or A(**kw), disc

    def name(self, rule):
        n = self.a.ser_name()
        return n if n is not None else serde_case.variant(rule, raw(self.ident))


DERIVE = ["wattr::Serde, "]


class T:
    """kind: struct | tuple | newtype | enum; tag: external | untagged | ("internal", t) | ("adjacent", t, c)"""

    def __init__(self, ident, kind, members, a=None, tag="external", repr=None, fam="", derives="", generics="", head="", via=0, **kw):
        self.ident, self.kind, self.members, self.a, self.tag, self.repr, self.fam = ident, kind, list(members), a or A(**kw), tag, repr, fam
        self.derives, self.head, self.via = derives, head, via

    # ---- Rust text
    def text(self):
        if not self.via:
            return self.plain()
        # the same item written by a macro that is given types, names or literals
        import re
        tys = []
        out = self.plain(lambda t: tys.append(t) or "$t%d" % (len(tys) - 1))
        pats = ["$t%d:ty" % i for i in range(len(tys))]
        args = list(tys)
        if self.via > 1:
            lits = []

            def lit(m):
                lits.append(m[0])
                return "$l%d" % (len(lits) - 1)
            out = re.sub(r'"(?:[^"\\]|\\.)*"', lit, out)
            pats += ["$l%d:%s" % (i, "literal" if self.via == 2 else "tt") for i in range(len(lits))]
            args += lits
        return "macro_rules! mk { (%s) => { %s } } mk!(%s);" % ("; ".join(pats), out, "; ".join(args))

    def plain(self, ty=lambda t: t):
        a = self.a
        if self.kind == "enum":
            x = {"external": [], "untagged": ["untagged"]}.get(self.tag)
            if x is None:
                x = ["tag = " + rs(self.tag[1])] + (["content = " + rs(self.tag[2])] if self.tag[0] == "adjacent" else [])
            a = A(**dict(vars(a), extra=tuple(x) + tuple(a.extra)))
        h = "#[derive(%sopg::OpgModel)] " % (DERIVE[0] if not self.derives else self.derives) + a.text()
        if self.repr:
            h += "#[repr(%s)] " % self.repr
        h += self.head
        if self.kind == "struct":
            return h + "pub struct %s { %s }" % (self.ident, "".join("%s%s: %s, " % (f.a.text(), f.ident, ty(f.ty.text)) for f in self.members))
        if self.kind in ("tuple", "newtype"):
            return h + "pub struct %s(%s);" % (self.ident, ", ".join("%s%s" % (f.a.text(), ty(f.ty.text)) for f in self.members))
        vs = ""
        for v in self.members:
            vs += v.a.text() + v.ident
            if v.shape == "struct":
                vs += " { %s}" % "".join("%s%s: %s, " % (f.a.text(), f.ident, ty(f.ty.text)) for f in v.fields)
            elif v.shape in ("newtype", "tuple"):
                vs += "(%s)" % ", ".join("%s%s" % (f.a.text(), ty(f.ty.text)) for f in v.fields)
            if v.disc is not None:
                vs += " = " + v.disc[0]
            vs += ", "
        return h + "pub enum %s { %s}" % (self.ident, vs)


# ---------- field types
class Ty:
    def __init__(self, text, name=None, schema=None):
        self.text, self.name, self.schema_ = text, name, schema

    def schema(self, env):
        return self.schema_(env)


def single(td, nullable=False, description=None):
    return {"description": description, "data": E("Single", {"nullable": nullable, "type_description": td})}


def simple(fmt=None, ex=None):
    return {"format": fmt, "example": ex}


def string(variants=None, fmt=None, ex=None):
    return E("String", {"variants": variants, "data": simple(fmt, ex)})


def leaf(i):
    n = "W%d" % i
    return Ty("crate::" + n, ("leaf", n), lambda env: single(E("Boolean"), description=env.S("schema:" + n)))


WS = [leaf(i) for i in range(10)]
STR = Ty("String", None, lambda env: single(string()))
U32 = Ty("u32", None, lambda env: single(E("Integer", simple("uint32"))))
F64 = Ty("f64", None, lambda env: single(E("Number", simple("double"))))
BOOL = Ty("bool", None, lambda env: single(E("Boolean")))
OPTS = Ty("Option<String>", None, lambda env: single(string(), nullable=True))


def vec(t):
    return Ty("Vec<%s>" % t.text, None, lambda env: single(E("Array", {"items": env.mention(t)})))


def mapof(t):
    return Ty("std::collections::BTreeMap<String, %s>" % t.text, None, lambda env: single(
        E("Object", {"properties": {}, "additional_properties": env.mention(t), "required": []})))


def arrof(t, n):
    return Ty("[%s; %d]" % (t.text, n), None, lambda env: single(E("Array", {"items": env.mention(t)})))


def boxed(t):
    return Ty("Box<%s>" % t.text, t.name, t.schema_)


def derived(item, path=None):
    """an earlier item as field type"""
    t = Ty(path or "crate::types::%s::%s" % (item.mod, item.ident), None if item.a.inline else ("item", raw(item.ident)), lambda env: schema(item, env))
    return t


# ---------- the promised schema
P0 = dict(desc=None, nullable=None, format=None, example=None)


def params(*attrs):
    """the first that says something wins"""
    p = dict(P0)
    for a in attrs:
        for k, v in (("desc", a.desc), ("nullable", True if a.nullable else None), ("format", a.format), ("example", a.exval)):
            if p[k] is None:
                p[k] = v
    return p


def apply(m, p):
    m = dict(m)
    if p["desc"] is not None:
        m["description"] = p["desc"]
    d = m["data"]
    if d.n == "Single":
        t = dict(d.a[0])
        if p["nullable"] is not None:
            t["nullable"] = p["nullable"]
        td = t["type_description"]
        if td.n in ("String", "Number", "Integer"):
            x = dict(td.a[0])
            s = dict(x["data"]) if td.n == "String" else x
            if p["format"] is not None:
                s["format"] = p["format"]
            if p["example"] is not None:
                s["example"] = p["example"]
            if td.n == "String":
                x["data"] = s
            t["type_description"] = E(td.n, x)
        m["data"] = E("Single", t)
    return m


class Env:
    def __init__(self, W):
        self.W = W
        self.reg = {}
        self.open = set()

    def S(self, n):
        return self.W.S(n)

    def key(self, name):
        return self.W.S("name:" + name[1]) if name[0] == "leaf" else name[1]

    def mention(self, ty, inline=False, p=P0):
        if ty.name is None or inline:
            return E("Inline", apply(ty.schema(self), p))
        k = self.key(ty.name)
        if ty.name not in self.open:
            self.open.add(ty.name)
            self.reg[k] = ty.schema(self)
        return E("Link", k)


def explicit(kind, p):
    td = {"string": lambda: string(None, p["format"], p["example"]), "integer": lambda: E("Integer", simple(p["format"], p["example"])),
          "number": lambda: E("Number", simple(p["format"], p["example"])), "boolean": lambda: E("Boolean")}[kind]()
    return single(td, nullable=bool(p["nullable"]), description=p["desc"])


def member(env, f, p, inline):
    if f.a.explicit == "any":
        return E("Any")
    if f.a.explicit:
        return E("Inline", explicit(f.a.explicit, p))
    return env.mention(f.ty, inline, p)


def objectd(env, fields, rule, inl):
    props, req = {}, []
    for f in fields:
        if f.a.skipped:
            continue
        n = f.name(rule)
        props[n] = member(env, f, params(f.a), inl or f.a.inline)
        if not (f.a.optional or f.a.skip_if):
            req.append(n)
    return E("Object", {"properties": props, "additional_properties": None, "required": req})


def arrayd(env, fields, inl):
    return E("Array", {"items": E("Inline", oneof([member(env, f, params(f.a), inl or f.a.inline) for f in fields if not f.a.skipped]))})


def oneof(l, d=None):
    return {"description": d, "data": E("OneOf", {"one_of": l})}


def shape(v):
    if v.shape == "newtype" and v.fields[0].a.skipped:
        return "unit"
    return v.shape


def schema(t, env):
    """what get_schema must return; fills env.reg with what it must register"""
    d, nl = t.a.desc, t.a.nullable
    rule = t.a.rule()
    if t.kind == "struct":
        return single(objectd(env, t.members, rule, False), nl, d)
    if t.kind == "tuple":
        return single(arrayd(env, t.members, False), nl, d)
    if t.kind == "newtype":
        f = t.members[0]
        p = params(f.a, t.a)
        ex = f.a.explicit or t.a.explicit
        return explicit(ex, p) if ex else apply(f.ty.schema(env), p)
    vs = [v for v in t.members if not v.a.skipped]
    unit_only = all(v.shape == "unit" for v in t.members)
    if unit_only and t.tag == "external":
        if t.repr in PRIM:
            out, at = [], 0
            for v in t.members:
                at = v.disc[1] if v.disc else at
                if not v.a.skipped:
                    out.append(E("Inline", single(E("Integer", simple(None, str(at))), description="%s variant" % v.name(rule))))
                at += 1
            return oneof(out, d)
        names = [v.name(rule) for v in vs]
        return single(string(names, None, names[0] if names else None), nl, d)

    def tagprop(names):
        return E("Inline", single(string(names, None, names[0] if names else None), description="%s type variant" % raw(t.ident)))

    def content(v):
        s, vr, i = shape(v), v.a.rule(), v.a.inline
        if s == "newtype":
            f = v.fields[0]
            return member(env, f, params(f.a, noflags(v.a)), i or f.a.inline)
        if s == "tuple":
            return E("Inline", single(arrayd(env, v.fields, i), description=v.a.desc))
        if s == "struct":
            return E("Inline", single(objectd(env, v.fields, vr, i), description=v.a.desc))
        return None
    if t.tag == "untagged":
        def un(v):
            c = content(v)
            return c if c is not None else E("Inline", single(string(None, "null"), True, v.a.desc if v.a.desc is not None else "Always `null`"))
        return oneof([un(v) for v in vs], d)
    if t.tag == "external":
        def ex(v):
            c = content(v)
            return c if c is not None else E("Inline", single(string([v.name(rule)], None, v.name(rule)), description=v.a.desc))
        l = [ex(v) for v in vs]
        return single(E("Object", {"properties": {}, "additional_properties": E("Inline", oneof(l, d)), "required": []}), nl, d)
    if t.tag[0] == "adjacent":
        names = [v.name(rule) for v in vs]
        cs = [c for c in map(content, vs) if c is not None]
        props, req = {t.tag[1]: tagprop(names)}, [t.tag[1]]
        if cs:
            props[t.tag[2]] = E("Inline", oneof(cs, d))
        if len(cs) == len(vs):
            req.append(t.tag[2])
        return single(E("Object", {"properties": props, "additional_properties": None, "required": req}), nl, d)

    def internal(v):
        s = shape(v)
        tp = tagprop([v.name(rule)])
        if s == "newtype":
            f = v.fields[0]
            m = apply(f.ty.schema(env), params(f.a, noflags(v.a)))
        else:
            m = single(objectd(env, v.fields if s == "struct" else [], v.a.rule(), v.a.inline), description=v.a.desc)
        td = m["data"].a[0]["type_description"] if m["data"].n == "Single" else None
        if td is None or td.n != "Object":
            return E("Inline", {"description": None, "data": E("AllOf", {"all_of": [E("Inline", m), E("Inline", single(
                E("Object", {"properties": {t.tag[1]: tp}, "additional_properties": None, "required": [t.tag[1]]}), nullable=Any))]})})
        o = dict(td.a[0])
        o["properties"] = dict(o["properties"])
        o["properties"][t.tag[1]] = tp
        o["required"] = list(o["required"]) + [t.tag[1]]
        x = dict(m["data"].a[0])
        x["type_description"] = E("Object", o)
        return E("Inline", {"description": m["description"], "data": E("Single", x)})
    return oneof([internal(v) for v in vs], d)


PRIM = ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize")


def noflags(a):
    return A(desc=a.desc, format=a.format, example=a.example, ewith=a.ewith)


# ---------- families
TAGS = ["external", "untagged", ("internal", "kind"), ("adjacent", "t", "c")]
FIELDS = ["a", "very_tasty", "z42", "r#type", "_lead", "trail_", "dou__ble", "camelCase", "PascalCase", "SCREAM_IT", "http2_server", "x1_y_2z", "r#match", "a_rather_long_field_name_with_many_words_in_it_so_that_limits_would_show_1"]
VARIANTS = ["A", "VeryTasty", "Z42", "HTTPServer", "snake_variant", "lowercase", "X_1Y", "SCREAM_IT", "r#Box", "Trail_", "A1B2", "ARatherLongVariantNameWithManyWordsInItSoThatLimitsWouldShow1"]
WEIRD = ["", " ", "a b", "quote\"d", "back\\slash", "brace {} {0} {x", "new\nline", "ünïcode ✓", "$ref", "#/x", "r#raw", "0", "true", "null", "x" * 300, "/* c */", "%s", "'", "\ttab "]


class Gen:
    def __init__(self):
        self.items = []
        self.n = 0
        self.m = 0

    def add(self, kind, members, fam, ident=None, **kw):
        t = T(ident or "T%d" % self.n, kind, members, fam=fam, **kw)
        t.mod = "m%d" % self.n
        self.n += 1
        self.items.append(t)
        return t

    def lit(self, stem):
        self.m += 1
        return "%s %d" % (stem, self.m)

    def mem(self, i, **kw):
        """a typed tuple member, types rotate"""
        return F(str(i), [WS[i % 10], STR, WS[(i + 3) % 10], U32, vec(WS[(i + 5) % 10])][i % 5], **kw)


def fields(n, at=0, **kw):
    return [F("f%s_%d" % ("zmaqkb"[i % 6], i), [WS[(at + i) % 10], STR, U32, WS[(at + i + 4) % 10]][i % 4], **kw) for i in range(n)]


def tup(n, at=0):
    return [F(str(i), [WS[(at + i) % 10], STR, WS[(at + i + 4) % 10], U32][i % 4]) for i in range(n)]


def var(ident, sh, at=0, n=2, **kw):
    fs = {"unit": [], "newtype": tup(1, at), "tuple": tup(n, at), "struct": fields(n, at)}[sh]
    return V(ident, sh, fs, **kw)


def fam_names(g, thorough):
    forms = [None] + RULES
    for r in forms:
        for form in ("plain", "both", "rev", "deonly"):
            if r is None and form != "plain":
                continue
            ra = {"plain": r, "both": (r, "UPPERCASE" if r != "UPPERCASE" else "camelCase"), "rev": (r, "lowercase", 1), "deonly": (None, r)}[form]
            fs = []
            for i, f in enumerate(FIELDS):
                fs.append(F(f, STR, layout=i))
            fs.append(F("re_named_a", STR, rename="Given_Name-x"))
            fs.append(F("re_named_b", STR, rename=("ser_Name", "deName")))
            fs.append(F("re_named_c", STR, rename=("serName2", "de2", 1)))
            fs.append(F("re_named_d", STR, rename=(None, "deOnly")))
            fs.append(F("re_named_e", STR, rename=("serOnly_x", None)))
            fs.append(F("r#fn", STR, rename="r_fn"))
            fs.append(F("opt_al", STR, optional=True, rename=("opt_Ser", None)))
            g.add("struct", fs, "names/struct", rename_all=ra, layout=len(g.items))
            g.add("struct", [F(f, STR, optional=True, skip_if=bool(i % 2)) for i, f in enumerate(FIELDS)], "names/struct", rename_all=ra, rename="Whatever", layout=len(g.items))
            vs = [V(v, "unit", layout=i) for i, v in enumerate(VARIANTS)]
            vs += [V("ReNamedA", "unit", rename="given Name"), V("ReNamedB", "unit", rename=("serB", "deB")), V("ReNamedC", "unit", rename=(None, "deC")), V("ReNamedD", "unit", rename=("serD_d", None))]
            g.add("enum", vs, "names/unit enum", rename_all=ra, layout=len(g.items))
            g.add("enum", vs, "names/repr enum", rename_all=ra, layout=len(g.items), repr="u8", derives="crate::stub::Serialize, " if False else "")
    inner = g.add("struct", [F("in_ner_a", STR), F("in_ner_b", WS[1])], "helper", rename_all="UPPERCASE")
    for tag in TAGS:
        for r in forms:
            for vr in (None, "camelCase", "SCREAMING-KEBAB-CASE") if not thorough else forms:
                vs = []
                for i, (sh, ren) in enumerate(itertools.product(("struct", "newtype", "unit", "tuple"), (None, "given-Name", ("ser_Name", "de"), (None, "de")))):
                    if sh == "tuple" and tag[0] == "internal":
                        continue
                    ident = ["VeryTasty", "snake_variant", "HTTPServer", "Z42"][i % 4] + "V%d" % i
                    fs = [F("very_tasty", STR), F("r#type", U32), F("re_named", STR, rename="Given_f"), F("two_sided", STR, rename=("ser_F", "de_F"))] if sh == "struct" else \
                        [F("0", derived(inner))] if sh == "newtype" else tup(2) if sh == "tuple" else []
                    vra = vr if i % 3 else ((vr, "lowercase") if vr else None)
                    vs.append(V(ident, sh, fs, rename=ren if not isinstance(ren, str) else ren + str(i), rename_all=vra, layout=i))
                g.add("enum", vs, "names/%s" % (tag if isinstance(tag, str) else tag[0]), tag=tag, rename_all=r, layout=len(g.items))
        # a rule on the enum of unit variants only
        if tag != "untagged":
            for r in forms:
                g.add("enum", [V(v, "unit") for v in VARIANTS], "names/unit %s" % (tag if isinstance(tag, str) else tag[0]), tag=tag, rename_all=r)


def fam_skip(g, thorough):
    kinds = ["skip", "skip_serializing"]
    for n in (1, 2, 3, 4):
        for bits in range(1 << n):
            for k in kinds:
                sk = [k if bits >> i & 1 else ("skip_deserializing" if i == 1 else None) for i in range(n)]
                if not bits and k != kinds[0]:
                    continue
                g.add("struct", [F("fi_%d" % (9 - i), WS[i] if i % 2 else STR, skip=s, optional=i == 2, layout=i) for i, s in enumerate(sk)], "skip/struct", layout=bits)
                if n > 1:
                    g.add("tuple", [F(str(i), [WS[i], STR, WS[i + 4], U32][i % 4], skip=s, desc="d%d" % i if i & 1 else None, layout=i) for i, s in enumerate(sk)], "skip/tuple", layout=bits)
                g.add("enum", [V("Va%d" % (9 - i), "unit", skip=s) for i, s in enumerate(sk)], "skip/unit enum")
                g.add("enum", [V("Va%d" % i, "unit", skip=s, disc=(str(10 * i), 10 * i)) for i, s in enumerate(sk)], "skip/repr enum", repr="i32")
                g.add("enum", [V("Va%d" % i, "unit", skip=s) for i, s in enumerate(sk)], "skip/repr enum", repr="u16")
    for tag in TAGS:
        nm = tag if isinstance(tag, str) else tag[0]
        shapes = ["struct", "newtype", "unit"] + (["tuple"] if nm != "internal" else [])
        for n in (2, 3):
            for bits in range(1 << n):
                for off in range(len(shapes)):
                    vs = [var("Va%d" % i, shapes[(i + off) % len(shapes)], at=i * 3, skip=(kinds[(bits + i) % 2] if bits >> i & 1 else None)) for i in range(n)]
                    if tag == "untagged" and all(v.shape == "unit" for v in vs):
                        continue
                    g.add("enum", vs, "skip/%s variants" % nm, tag=tag)
        # members of variants
        for bits in range(8):
            for k in kinds:
                fs = [F("fi_%d" % (9 - i), WS[i] if i != 1 else STR, skip=k if bits >> i & 1 else None) for i in range(3)]
                ts = [F(str(i), WS[i + 3] if i != 1 else STR, skip=k if bits >> i & 1 else None) for i in range(3)]
                vs = [V("St", "struct", fs), V("Nt", "newtype", [F("0", WS[7], skip=k if bits & 1 else None)])] + ([V("Tu", "tuple", ts)] if nm != "internal" else [])
                g.add("enum", vs, "skip/%s members" % nm, tag=tag)
        g.add("enum", [V("Only", "newtype", [F("0", WS[7], skip="skip")], desc="left")], "skip/%s members" % nm, tag=tag)
        g.add("enum", [V("Only", "newtype", [F("0", WS[7], skip="skip")]), V("Other", "struct", fields(1))], "skip/%s members" % nm, tag=tag)


def fam_required(g, thorough):
    st = [dict(), dict(optional=True), dict(skip_if=True), dict(optional=True, skip_if=True), dict(skip="skip"), dict(optional=True, skip="skip_serializing"), dict(optional=True, rename="Re"), dict(rename="Re2"),
          dict(nullable=True), dict(explicit="any"), dict(explicit="integer", optional=True), dict(inline=True, skip_if=True), dict(desc="d")]
    n = 0
    for x, y in itertools.product(range(len(st)), repeat=2):
        n += 1
        a, b = dict(st[x], layout=n), dict(st[y], layout=n // 3)
        if "rename" in b:
            b["rename"] += "y"
        fs = lambda: [F("fz_one", STR, **a), F("fa_two", WS[2], **b), F("fm_three", OPTS)]
        g.add("struct", fs(), "required/struct", rename_all=[None, "camelCase"][n % 2])
        for i, tag in enumerate(TAGS):
            if thorough or n % 4 == i:
                nm = tag if isinstance(tag, str) else tag[0]
                g.add("enum", [V("St", "struct", fs(), rename_all=[None, "camelCase"][n % 2]), V("Ot", "struct", list(reversed(fs())))], "required/" + nm, tag=tag)
    for k in (0, 1, 2, 5, 9, 17, 40):
        g.add("struct", fields(k), "required/size")
        g.add("struct", fields(k, optional=True), "required/size")
        if k:
            g.add("struct", fields(k - 1) + [F("zlast", STR, optional=True)], "required/size")
            g.add("struct", [F("zfirst", STR, optional=True)] + fields(k - 1), "required/size")
    inner = g.add("struct", [F("ia", STR), F("ib", STR, optional=True)], "helper")
    empty = g.add("struct", [], "helper")
    alloptional = g.add("struct", [F("ia", STR, optional=True)], "helper")
    for x in (inner, empty, alloptional):
        g.add("enum", [V("Nt", "newtype", [F("0", derived(x))]), V("Un", "unit"), V("St", "struct", fields(1)), V("Se", "struct", [])], "required/internal", tag=("internal", "kind"))
        g.add("enum", [V("Nt", "newtype", [F("0", derived(x))]), V("Un", "unit"), V("St", "struct", fields(1)), V("Se", "struct", [])], "required/adjacent", tag=("adjacent", "t", "c"))


def fam_enums(g, thorough):
    sh = ["unit", "newtype", "tuple", "struct"]
    for tag in TAGS:
        nm = tag if isinstance(tag, str) else tag[0]
        for n in (1, 2, 3):
            for seq in itertools.product(sh, repeat=n):
                if nm == "internal" and "tuple" in seq or tag == "untagged" and set(seq) == {"unit"}:
                    continue
                g.add("enum", [var("V%d" % (9 - i), s, at=i * 2, n=[2, 3, 1][i] if s == "struct" else 2 + (i & 1)) for i, s in enumerate(seq)], "enum/" + nm, tag=tag)
        # sizes
        for n in (0, 5, 12, 33):
            if tag == "untagged" and n == 0:
                continue
            g.add("enum", [var("V%d" % i, "struct" if i % 2 else "newtype", at=i, n=1) for i in range(n)], "enum/" + nm, tag=tag)
            if tag != "untagged":
                g.add("enum", [V("V%d" % i, "unit") for i in range(n)], "enum/" + nm, tag=tag)
        for k in (0, 1, 2, 4, 7):
            vs = [var("S", "struct", n=k)] + ([var("Tu", "tuple", n=k)] if nm != "internal" and k > 1 else [])
            g.add("enum", vs, "enum/" + nm, tag=tag)
    kinds = dict(
        obj=g.add("struct", fields(2), "helper"), inl=g.add("struct", fields(2, 3), "helper", inline=True), uni=g.add("enum", [V("A", "unit"), V("B", "unit")], "helper"),
        ext=g.add("enum", [var("A", "newtype"), var("B", "struct")], "helper"), unt=g.add("enum", [var("A", "newtype"), var("B", "struct")], "helper", tag="untagged"),
        inr=g.add("enum", [var("A", "struct"), var("B", "unit")], "helper", tag=("internal", "sub")), adj=g.add("enum", [var("A", "struct"), var("B", "unit")], "helper", tag=("adjacent", "sub", "con")),
        new=g.add("newtype", [F("0", STR)], "helper"), tup=g.add("tuple", tup(2), "helper"))
    for tag in TAGS:
        nm = tag if isinstance(tag, str) else tag[0]
        tys = [derived(x) for x in kinds.values()] + [WS[1], STR, U32, OPTS, vec(WS[2]), mapof(WS[3]), vec(derived(kinds["obj"]))]
        for ty in tys:
            g.add("enum", [V("N1", "newtype", [F("0", ty)]), V("Un", "unit"), V("S1", "struct", [F("x", ty), F("y", STR)])] + ([V("T1", "tuple", [F("0", ty), F("1", STR)])] if nm != "internal" else []), "enum/%s inner types" % nm, tag=tag)
    for t, c in (("type", "value"), ("c", "t"), ("with space", "quo\"te"), ("kind", "content"), ("Type", "type")):
        g.add("enum", [var("A", "struct"), var("B", "newtype"), V("C", "unit")], "enum/adjacent keys", tag=("adjacent", t, c), layout=len(t))
        g.add("enum", [var("A", "struct"), V("B", "newtype", [F("0", derived(kinds["obj"]))]), V("C", "unit")], "enum/internal keys", tag=("internal", t), layout=len(t))
    for p in PRIM:
        for neg in ((0, 1) if p[0] == "i" else (0,)):
            g.add("enum", [V("A", "unit", disc=("-7", -7) if neg else ("7", 7)), V("B", "unit", disc=("0", 0)), V("Cc", "unit", disc=("100", 100))], "enum/repr", repr=p)
        g.add("enum", [V("A", "unit"), V("B", "unit", skip="skip"), V("Cc", "unit")], "enum/repr", repr=p)
    g.add("enum", [V("A", "unit", disc=("1 << 3", 8)), V("B", "unit", disc=("0x10", 16)), V("C", "unit", disc=("3 + 4", 7))], "enum/repr", repr="u32")
    g.add("enum", [V("A", "unit", disc=("18446744073709551615", 2**64 - 1)), V("B", "unit", disc=("1", 1))], "enum/repr", repr="u64")
    g.add("enum", [V("A", "unit", disc=("-9223372036854775808", -2**63)), V("B", "unit", disc=("1", 1))], "enum/repr", repr="i64", desc="described")
    g.add("enum", [V("A", "unit", disc=("5", 5)), V("B", "unit", disc=("9", 9))], "enum/discriminants without repr")
    g.add("enum", [V("A", "unit"), V("B", "unit")], "enum/repr C", repr="C")
    g.add("enum", [V("A", "unit"), V("B", "unit")], "enum/repr C", repr="C, u8", derives="serde::Serialize, ") if False else None
    g.add("enum", [V("A", "unit"), V("B", "unit")], "enum/repr C", repr="align(8)")
    g.add("enum", [var("A", "newtype"), var("B", "struct"), var("C", "unit")], "enum/repr with data", repr="u8")
    g.add("enum", [var("A", "newtype"), var("B", "struct"), var("C", "unit")], "enum/repr with data", repr="C, u8")
    g.add("struct", fields(2), "enum/repr on struct", repr="C")
    g.add("newtype", tup(1), "enum/repr on struct", repr="transparent")
    g.add("enum", [V("A", "unit", desc="x", layout=1), V("B", "unit", format="f", example="e")], "enum/unit attributes")


SUBS = [dict(zip(("desc", "format", "example", "nullable"), b)) for b in itertools.product((0, 1), repeat=4)]


def attrs(g, bits, tag, how=0, **kw):
    d = dict(kw)
    for k, v in bits.items():
        if v:
            d[k] = True if k == "nullable" else g.lit("%s %s" % (tag, k))
    if d.get("example") and how:
        d["ewith"] = [("crate::EXA", "exa"), ("40 + 2", "42"), ("\"lit\"", "lit"), ("crate::exs()", "exs")][how % 4]
        del d["example"]
    return d


def fam_attrs(g, thorough):
    tys = [STR, U32, F64, BOOL, WS[1], vec(WS[2])]
    inner = g.add("struct", [F("ia", STR), F("ib", WS[5], desc="inner")], "helper", desc="Inner")
    uenum = g.add("enum", [V("A", "unit"), V("B", "unit")], "helper", desc="U")
    nt = g.add("newtype", [F("0", STR)], "helper", desc="N", format="nf", example="ne")
    xenum = g.add("enum", [var("A", "newtype")], "helper", tag="untagged", desc="X")
    tys += [derived(inner), derived(uenum), derived(nt), derived(xenum)]
    n = 0
    # fields: every subset, every type, inline or not, explicit types
    for ty in tys:
        for exp in (None, "string", "integer", "number", "boolean", "any"):
            for inl in (False, True):
                if inl and (exp or ty.name is None):
                    continue
                if exp and ty not in (STR, WS[1], tys[6]):
                    continue
                fs = []
                for i, b in enumerate(SUBS):
                    n += 1
                    fs.append(F("f%d" % i, ty, explicit=exp, inline=inl, layout=n, **attrs(g, b, "field", n % 5 if b["example"] else 0)))
                g.add("struct", fs, "attrs/fields")
                g.add("tuple", [F(str(i), f.ty, f.a) for i, f in enumerate(fs)], "attrs/tuple fields")
    # containers
    for b in SUBS:
        for k in range(2):
            kw = attrs(g, b, "cont", k)
            g.add("struct", [F("a", STR), F("b", WS[1]), F("c", STR, desc="own")], "attrs/struct", layout=n, **kw)
            g.add("tuple", [F("0", STR), F("1", WS[1]), F("2", STR, desc="own")], "attrs/tuple", layout=n, **kw)
            g.add("enum", [V("A", "unit"), V("B", "unit")], "attrs/unit enum", layout=n, **kw)
            n += 1
        for tag in TAGS:
            kw = attrs(g, b, "cont")
            if b["nullable"] and tag[0] in ("internal", "u") or b["nullable"] and tag == "untagged":
                continue
            nm = tag if isinstance(tag, str) else tag[0]
            g.add("enum", [V("A", "newtype", [F("0", derived(inner))]), var("S", "struct"), V("Un", "unit"), V("D", "struct", fields(1), desc="own variant")], "attrs/" + nm, tag=tag, layout=n, **kw)
            if tag != "untagged":
                g.add("enum", [V("A", "unit"), V("B", "unit", desc="own")], "attrs/" + nm, tag=tag, layout=n, **kw)
            n += 1
        if not b["nullable"]:
            g.add("enum", [V("A", "unit"), V("B", "unit")], "attrs/repr enum", repr="u8", **attrs(g, b, "cont"))
    # single-field structs: container x field
    for cb, fb in itertools.product(SUBS, SUBS):
        n += 1
        ty = tys[n % len(tys)] if n % 3 else STR
        g.add("newtype", [F("0", ty, layout=n, **attrs(g, fb, "field", n % 5))], "attrs/newtype", layout=n // 4, **attrs(g, cb, "cont", n % 4))
    for ce, fe in itertools.product((None, "string", "integer", "number", "boolean"), repeat=2):
        if ce or fe:
            for cb, fb in ((SUBS[0], SUBS[0]), (SUBS[15], SUBS[0]), (SUBS[0], SUBS[15]), (SUBS[15], SUBS[15]), (SUBS[5], SUBS[10]), (SUBS[10], SUBS[5]), (SUBS[1], SUBS[8]), (SUBS[8], SUBS[1])):
                n += 1
                g.add("newtype", [F("0", [STR, WS[1], U32][n % 3], explicit=fe, layout=n, **attrs(g, fb, "field"))], "attrs/explicit newtype", explicit=ce, layout=n // 3, **attrs(g, cb, "cont"))
    # variants x fields
    VS = [dict(zip(("desc", "format", "example"), b)) for b in itertools.product((0, 1), repeat=3)]
    for tag in TAGS:
        nm = tag if isinstance(tag, str) else tag[0]
        for ty in (STR, WS[1], derived(inner), U32) if nm != "internal" else (derived(inner), STR, mapof(WS[4])):
            vs = []
            for i, (vb, fb) in enumerate(itertools.product(VS, SUBS)):
                n += 1
                vs.append(V("N%d" % i, "newtype", [F("0", ty, layout=n, **attrs(g, fb, "field", n % 5))], layout=n // 4, **attrs(g, vb, "variant", n % 3)))
            g.add("enum", vs, "attrs/%s newtype variants" % nm, tag=tag)
        if nm != "internal":
            vs = []
            for i, (vb, fb, ex) in enumerate(itertools.product(VS, (SUBS[0], SUBS[15], SUBS[6]), ("string", "integer", "boolean", "any"))):
                vs.append(V("E%d" % i, "newtype", [F("0", [STR, WS[3]][i % 2], explicit=ex, layout=i, **attrs(g, fb, "field"))], layout=i // 4, **attrs(g, vb, "variant")))
            g.add("enum", vs, "attrs/%s explicit newtype variants" % nm, tag=tag)
        vs = []
        for i, vb in enumerate(VS):
            fs = [F("a%d" % j, STR if j % 2 else WS[j], layout=j, **attrs(g, SUBS[(j * 5 + i) % 16], "field")) for j in range(4)]
            vs.append(V("S%d" % i, "struct", fs, layout=i, **attrs(g, vb, "variant")))
            if nm != "internal":
                vs.append(V("T%d" % i, "tuple", [F(str(j), f.ty, f.a) for j, f in enumerate(fs)], layout=i, **attrs(g, vb, "variant")))
            vs.append(V("U%d" % i, "unit", layout=i, **attrs(g, vb, "variant")))
        g.add("enum", vs, "attrs/%s variants" % nm, tag=tag)


def fam_inline(g, thorough):
    named = g.add("struct", [F("na", STR), F("nb", WS[1])], "helper", ident="NamedStruct", desc="Named")
    inl = g.add("struct", [F("ia", STR), F("ib", WS[2])], "helper", ident="InlineStruct", inline=True, desc="Inlined")
    nen = g.add("enum", [V("A", "unit"), V("B", "unit")], "helper", ident="NamedEnum")
    ien = g.add("enum", [V("A", "unit"), V("B", "unit")], "helper", ident="InlineEnum", inline=True)
    nnt = g.add("newtype", [F("0", STR)], "helper", ident="NamedNew", desc="nn")
    innt = g.add("newtype", [F("0", WS[3])], "helper", ident="InlineNew", inline=True)
    ntu = g.add("tuple", tup(2), "helper", ident="NamedTuple")
    itu = g.add("tuple", tup(2, 3), "helper", ident="InlineTuple", inline=True)
    nxe = g.add("enum", [var("A", "newtype"), var("B", "struct")], "helper", ident="NamedExt")
    ixe = g.add("enum", [var("A", "newtype"), var("B", "struct")], "helper", ident="InlineExt", inline=True)
    nie = g.add("enum", [var("A", "unit"), var("B", "struct")], "helper", ident="NamedInt", tag=("internal", "k"))
    iie = g.add("enum", [var("A", "unit"), var("B", "struct")], "helper", ident="InlineInt", tag=("internal", "k"), inline=True)
    nae = g.add("enum", [var("A", "unit"), var("B", "struct")], "helper", ident="NamedAdj", tag=("adjacent", "k", "c"))
    iae = g.add("enum", [var("A", "unit"), var("B", "struct")], "helper", ident="InlineAdj", tag=("adjacent", "k", "c"), inline=True)
    nue = g.add("enum", [var("A", "newtype"), var("B", "struct")], "helper", ident="NamedUnt", tag="untagged")
    iue = g.add("enum", [var("A", "newtype"), var("B", "struct")], "helper", ident="InlineUnt", tag="untagged", inline=True)
    nre = g.add("enum", [V("A", "unit"), V("B", "unit")], "helper", ident="NamedRepr", repr="u8")
    ire = g.add("enum", [V("A", "unit"), V("B", "unit")], "helper", ident="InlineRepr", repr="u8", inline=True)
    allt = [named, inl, nen, ien, nnt, innt, ntu, itu, nxe, ixe, nie, iie, nae, iae, nue, iue, nre, ire]
    outer = g.add("struct", [F("x", derived(named)), F("y", derived(inl))], "helper", ident="Outer")
    outi = g.add("struct", [F("x", derived(named), inline=True, desc="over"), F("y", derived(inl), desc="over2")], "helper", ident="OuterInl", inline=True)
    allt += [outer, outi]
    n = 0
    for x in allt:
        d = derived(x)
        w = [d, Ty("Box<%s>" % d.text, d.name, d.schema_), vec(d)]
        for fi, ci in itertools.product((False, True), repeat=2):
            for ov in (dict(), dict(desc="over D"), dict(nullable=True), dict(desc="both", nullable=True, format="F", example="E")):
                n += 1
                if not thorough and ov and (n % 2) and "desc" not in ov:
                    continue
                g.add("struct", [F("m%d" % i, t, inline=fi, layout=n, **ov) for i, t in enumerate(w)] + [F("again", d)], "inline/struct", inline=ci, layout=n)
                g.add("tuple", [F("0", d, inline=fi, layout=n, **ov), F("1", d)], "inline/tuple", inline=ci, layout=n)
        for ci in (False, True):
            g.add("newtype", [F("0", d)], "inline/newtype", inline=ci)
            g.add("newtype", [F("0", d, inline=True, desc="x")], "inline/newtype", inline=ci)
    for tag in TAGS:
        nm = tag if isinstance(tag, str) else tag[0]
        for x in allt:
            d = derived(x)
            vs = []
            for i, (vi, fi, ov) in enumerate(itertools.product((False, True), (False, True), (dict(), dict(desc="ov")))):
                vs.append(V("N%d" % i, "newtype", [F("0", d, inline=fi, **ov)], inline=vi, layout=i))
                vs.append(V("S%d" % i, "struct", [F("a", d, inline=fi, **ov), F("b", d), F("c", WS[1], inline=not fi)], inline=vi, layout=i))
                if nm != "internal":
                    vs.append(V("T%d" % i, "tuple", [F("0", d, inline=fi, **ov), F("1", d), F("2", STR)], inline=vi, layout=i))
                vs.append(V("U%d" % i, "unit", inline=vi))
            g.add("enum", vs, "inline/" + nm, tag=tag, inline=(len(g.items) % 3 == 0))
    # raw and unusual type names
    for i in ("r#Raw", "snake_name", "A", "HTTPServer2", "T_", "Option2", "Ünï"):
        g.add("struct", fields(1), "inline/type names", ident=i)
        g.add("enum", [var("A", "struct"), V("B", "unit")], "inline/type names", ident=i + "E", tag=("internal", "k"), rename="Other")
        g.add("enum", [V("A", "unit"), V("B", "unit")], "inline/type names", ident=i + "F", rename_all="UPPERCASE", rename="Other")
        g.add("newtype", [F("0", STR)], "inline/type names", ident=i + "G")


PREDS = ["no", "self::no", "super::no", "Option::is_none", "std::option::Option::is_none", "::std::option::Option::is_none", "Vec::is_empty", "String::is_empty", "str::is_empty", "Vec::<u8>::is_empty", "HashMap::is_empty",
         "is_zero", "is_default", "is_false", "crate::a::b::c::no", "Self::is_none", "T::no", "<Vec<u8>>::is_empty", "r#type", "<W as Tr>::no"]


def fam_preds(g, words):
    """every way to spell the condition of a conditional skip"""
    ids = [w for w in words if w.isascii() and w.isidentifier() and w not in KEYWORDS]
    ps = PREDS + ids
    for i in range(0, len(ps), 5):
        fs = lambda opt=False: [F("f%d" % j, [STR, WS[j], OPTS, vec(WS[2]), U32][j], skip_if=p, optional=opt and j % 2 == 0, layout=i + j) for j, p in enumerate(ps[i:i + 5])] + [F("plain", STR)]
        w = dict(derives="wattr::Serde, ")
        g.add("struct", fs(), "preds/struct", **w)
        g.add("struct", fs(True), "preds/struct", rename_all="camelCase", **w)
        g.add("enum", [V("A", "struct", fs()), V("B", "struct", fs(True))], "preds/variants", tag=TAGS[(i // 5) % 4], **w)


def fam_sizes(g, ints):
    """every kind of item with every small number of members (and the numbers the derive itself mentions), bare and with each container attribute"""
    big = sorted({n + d for n in ints for d in (-1, 0, 1)} - set(range(7)))
    conts = [dict(), dict(inline=True), dict(nullable=True), dict(desc="sized"), dict(rename_all="camelCase"), dict(inline=True, nullable=True, desc="all", rename_all="kebab-case")]
    for n in list(range(7)) + big:
        for ci, c in enumerate(conts):
            if n > 6 and ci in (2, 3, 4):
                continue
            f = lambda k, at=0: [F("f%s_%d" % ("zmaqkb"[i % 6], i), [WS[(at + i) % 10], STR, U32][i % 3], desc="d%d" % i if i == k - 1 else None, optional=i % 4 == 2) for i in range(k)]
            t = lambda k, at=0: [F(str(i), [WS[(at + i) % 10], STR, U32][i % 3], desc="d%d" % i if i == k - 1 else None) for i in range(k)]
            g.add("struct", f(n, ci), "sizes/struct", **c)
            if n >= 2:
                g.add("tuple", t(n, ci), "sizes/tuple", **c)
            if n == 1:
                g.add("newtype", t(1, ci), "sizes/newtype", **{k: v for k, v in c.items() if k != "rename_all"})
            if n >= 1:
                g.add("enum", [V("Va%d" % i, "unit") for i in range(n)], "sizes/unit enum", **c)
                if not c.get("nullable"):
                    g.add("enum", [V("Va%d" % i, "unit") for i in range(n)], "sizes/repr enum", repr="u8", **c)
            for tag in TAGS:
                nm = tag if isinstance(tag, str) else tag[0]
                if c.get("nullable") and nm in ("untagged", "internal"):
                    continue
                sh = ["struct", "newtype", "unit"] + (["tuple"] if nm != "internal" else [])
                if n >= 2:
                    g.add("enum", [var("Va%d" % i, sh[(i + ci) % len(sh)], at=i, n=2) for i in range(n)], "sizes/%s variants" % nm, tag=tag, **c)
                g.add("enum", [V("S", "struct", f(n, ci))] + ([V("T", "tuple", t(n, ci))] if n >= 2 and nm != "internal" else []) + [V("U", "unit")], "sizes/%s members" % nm, tag=tag, **c)


SERDE_ONLY = dict(
    c=["default", "deny_unknown_fields", 'bound = ""', 'bound(serialize = "", deserialize = "")', 'remote = "X"', 'from = "X"', 'into = "X"', 'try_from = "X"', 'crate = "serde"', 'expecting = "x"', "variant_identifier", "field_identifier", 'default = "path"'],
    v=['alias = "x"', "other", 'serialize_with = "p"', 'deserialize_with = "p"', 'with = "p"', "borrow", 'borrow = "\'a"', 'bound = ""', "skip_deserializing"],
    f=["default", 'default = "p"', 'alias = "x"', 'with = "p"', 'serialize_with = "p"', 'deserialize_with = "p"', "borrow", 'borrow = "\'a"', 'bound = ""', 'getter = "p"', "skip_deserializing"])


def fam_mix(g, count, ints=(), seed=20240229, macros=False, near=False):
    """items that mix every dimension; which ones is fixed by the seed"""
    import random
    R = random.Random(seed)
    pool = []
    sizes = [0, 1, 1, 2, 2, 3, 3, 4, 5, 6] + [n for n in ints if n <= 40][:2]
    P = lambda x: R.random() < x
    fid = [x for x in FIELDS if len(x) < 30] + ["id", "name", "value", "items", "data", "created_at", "is_active", "r#async", "user_id", "fooBar", "x_y_z", "_p", "b2b", "kind2", "msg_type"]
    vid = [x for x in VARIANTS if len(x) < 30] + ["Ok2", "Created", "UserId", "IOError", "NotFound404", "None2", "V2Beta"]
    if near:  # names that almost coincide, members that resemble each other
        fid = ["a", "A", "ab", "aB", "a_b", "_a", "a_", "abc", "b", "B", "r#type", "a1", "a_1", "id", "Id"]
        vid = ["A", "Ab", "AB", "Abc", "B", "A1", "Aa", "A_", "Id", "ID", "AbId"]
    fmts = ["uuid", "date", "fmt \"x\"", "", "hex", "int64"]
    exs = ["ex", "1.5", "", "with \"quote\"", "{}", "\u2713", "-3"]

    def text():
        if near:
            return R.choice(["d", "d", "D", "", "a"])
        return R.choice(["A description", "other", "", "multi\nline", "with \"quotes\" and {braces}", "ünï"])

    def base():
        return R.choice([STR, U32, F64, BOOL, OPTS] + WS + ([derived(x) for x in R.sample(pool, min(4, len(pool)))] if pool else []))

    def ty():
        b = base() if not near or P(0.5) else R.choice((STR, WS[0]))
        k = R.randrange(10)
        return b if k < 5 else vec(b) if k == 5 else boxed(b) if k == 6 else arrof(b, R.choice((1, 2, 3, 31))) if k == 7 else mapof(b) if k == 8 else vec(mapof(vec(b)))

    def val(p=0.25, fl=True):
        p = min(1, p * R.choice((0, 1, 2.5))) if near else p
        d = {}
        if P(p):
            d["desc"] = text()
        if P(p):
            d["format"] = R.choice(fmts)
        if P(p):
            d["example"] = R.choice(exs)
        elif P(p / 3):
            d["ewith"] = R.choice([("crate::EXA", "exa"), ("40 + 2", "42"), ("crate::exs()", "exs"), ("1 == 2", "false"), ("'c'", "c")])
        if fl and P(p):
            d["nullable"] = True
        d["layout"] = R.randrange(4)
        return d

    def ren(d, stem, p=0.2):
        if P(p):
            n = "%s%d" % (stem, R.randrange(10 ** 6)) if not near else R.choice(["a", "A", "ab", "aB", "a b", "", "type", "A1", "b", "The_Tag ", "d"])
            d["rename"] = R.choice([n, (n, "de" + n), (n, None), (None, n), (n, "de" + n, 1)])
        return d

    def rall(d, p=0.4):
        if P(p):
            r = R.choice(RULES)
            d["rename_all"] = R.choice([r, r, (r, R.choice(RULES)), (None, r), (r, None), (r, R.choice(RULES), 1)])
        return d

    def foreign(d, l):
        """serde attributes that do not concern the schema"""
        if P(0.12):
            d["extra"] = tuple(R.sample(SERDE_ONLY[l], R.choice((1, 1, 2))))
        return d

    def field(ident, named, sk=True):
        d = foreign(val(), "f")
        if P(0.2):
            d["inline"] = True
        if named:
            ren(d, "Name_")
            if P(0.2):
                d["optional"] = True
            if P(0.15):
                d["skip_if"] = R.choice([True, "no", "Option::is_none"])
        if P(0.12):
            d["explicit"] = R.choice(["string", "integer", "number", "boolean", "any"])
        if sk and P(0.12):
            d["skip"] = R.choice(["skip", "skip_serializing"])
        return F(ident, ty(), **d)

    def named(k, rule, taken=()):
        out, seen = [], set(taken)
        for i in R.sample(fid, min(k, len(fid))) + ["more_%d" % i for i in range(k - len(fid))]:
            f = field(i, True)
            n = f.name(rule)
            if n not in seen:
                if not (near and f.a.skipped):
                    seen.add(n)
                out.append(f)
            elif near and f.a.skipped:
                out.append(f)
        return out

    def tupl(k):
        return [field(str(i), False) for i in range(k)]
    for _ in range(count):
        w = dict(derives="wattr::Serde, ")
        c = foreign(dict(w, **val(0.2, False)), "c")
        if P(0.2):
            c["inline"] = True
        ren(c, "Cont", 0.1)
        kind = R.choice(["struct", "struct", "tuple", "newtype", "unit", "repr", "enum", "enum", "enum", "enum"])
        n = R.choice(sizes)
        if kind == "struct":
            rall(c)
            if P(0.2):
                c["nullable"] = True
            t = g.add("struct", named(n, A(**c).rule()), "mix/struct", **c)
        elif kind == "tuple":
            if P(0.2):
                c["nullable"] = True
            t = g.add("tuple", tupl(max(2, n)), "mix/tuple", **c)
        elif kind == "newtype":
            f = field("0", False, sk=False)
            if f.a.explicit == "any":
                f.a.explicit = None
            if P(0.2):
                c["nullable"] = True
            if P(0.15):
                c["explicit"] = R.choice(["string", "integer", "number", "boolean"])
            t = g.add("newtype", [f], "mix/newtype", **c)
        elif kind in ("unit", "repr"):
            rall(c)
            r = A(**c).rule()
            vs, seen = [], set()
            at = 0
            discs = kind == "repr" and P(0.6)
            for i in R.sample(vid, min(max(1, n), len(vid))) + ["More%d" % i for i in range(n - len(vid))]:
                d = ren(val(0.1, False), "Var")
                if P(0.15):
                    d["skip"] = R.choice(["skip", "skip_serializing"])
                at += R.randrange(1, 9)
                v = V(i, "unit", disc=(str(at), at) if discs else None, **d)
                if v.name(r) not in seen:
                    seen.add(v.name(r))
                    vs.append(v)
            if kind == "repr":
                c["repr"] = R.choice(PRIM)
            elif P(0.2):
                c["nullable"] = True
            t = g.add("enum", vs, "mix/" + kind, **c)
        else:
            tag = R.choice(TAGS)
            nm = tag if isinstance(tag, str) else tag[0]
            if nm == "internal":
                tag = ("internal", "The_Tag")
            elif nm == "adjacent" and near:
                tag = ("adjacent",) + tuple(R.sample(["a", "A", "b", "type", "ab", "c", ""], 2))
            rall(c)
            r = A(**c).rule()
            if nm in ("external", "adjacent") and P(0.2):
                c["nullable"] = True
            vs, seen = [], set()
            for i in R.sample(vid, min(max(1, n), len(vid))) + ["More%d" % i for i in range(n - len(vid))]:
                sh = R.choice(["unit", "newtype", "struct", "struct"] + (["tuple"] if nm != "internal" else []))
                d = foreign(rall(ren(val(0.2, False), "Var"), 0.3), "v")
                if P(0.12):
                    d["skip"] = R.choice(["skip", "skip_serializing"])
                if P(0.2):
                    d["inline"] = True
                vr = A(**d).rule()
                if sh == "newtype":
                    f = field("0", False)
                    if nm == "internal":
                        f.a.explicit = None
                    fs = [f]
                else:
                    fs = [] if sh == "unit" else named(R.choice(sizes[:10]), vr) if sh == "struct" else tupl(R.choice((2, 2, 3, 4)))
                v = V(i, sh, fs, **d)
                if v.name(r) not in seen:
                    seen.add(v.name(r))
                    vs.append(v)
            if all(v.shape == "unit" for v in vs):
                vs.append(V("Data", "struct", named(2, None)))
            t = g.add("enum", vs, "mix/" + nm, tag=tag, **c)
        t.via = R.choice((0, 0, 0, 0, 0, 1, 2, 3)) if macros else 0
        if P(0.5):
            pool.append(t)


def fam_words(g, words):
    """strings the derive itself mentions, and awkward ones, in every place that takes a string"""
    ws = list(dict.fromkeys(WEIRD + words))
    for i in range(0, len(ws), 6):
        ch = ws[i:i + 6]
        g.add("struct", [F("f%d" % j, STR, rename=w) for j, w in enumerate(ch)], "words/rename")
        g.add("struct", [F("f%d" % j, STR, desc=w, format=w, example=w) for j, w in enumerate(ch)], "words/field values")
        g.add("tuple", [F(str(j), U32, desc=w, format=w) for j, w in enumerate(ch)] + [F("9", STR)], "words/field values")
        g.add("enum", [V("V%d" % j, "unit", rename=w) for j, w in enumerate(ch)], "words/variant names")
        g.add("enum", [V("V%d" % j, "unit", rename=w) for j, w in enumerate(ch)], "words/variant names", repr="u8")
        for tag in TAGS:
            g.add("enum", [V("V%d" % j, ["struct", "newtype"][j % 2], fields(1) if j % 2 == 0 else [F("0", STR)], rename=w, desc=w, format=w) for j, w in enumerate(ch)], "words/variants", tag=tag)
    for w in ws:
        g.add("enum", [V("A", "struct", fields(1)), V("B", "unit")], "words/tag", tag=("internal", w))
        w2 = ws[ws.index(w) - 1]
        g.add("enum", [V("A", "struct", fields(1)), V("B", "newtype", [F("0", STR)])], "words/tag", tag=("adjacent", w, w2))
        g.add("newtype", [F("0", STR)], "words/container values", desc=w, format=w, example=w)
    ids = [w for w in ws if w.isascii() and w.isidentifier() and w not in KEYWORDS and not w.startswith("_IMPL")]
    for i in range(0, len(ids), 6):
        for r in (None, "camelCase", "UPPERCASE"):
            g.add("struct", [F(w, [STR, WS[j % 10]][j % 2]) for j, w in enumerate(ids[i:i + 6])], "words/field idents", rename_all=r)
            g.add("enum", [V(w, "unit") for w in ids[i:i + 6]], "words/variant idents", rename_all=r)
            g.add("enum", [V(w, "struct", [F(w, STR)]) for w in ids[i:i + 6]], "words/variant idents", rename_all=r, tag=("internal", "Kind9"))
    for w in ids:
        if w[0].isupper():
            g.add("struct", [F("a", WS[1])], "words/type idents", ident=w)


KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen _ union str u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 isize usize f32 f64 bool char Option Vec String Some None Ok Err Box Default Self".split())

FAMS = dict(names=fam_names, skip=fam_skip, required=fam_required, enums=fam_enums, attrs=fam_attrs, inline=fam_inline)


def build(which, words=(), thorough=False, ints=()):
    """the families named, and of the others every third item (all of them when thorough)"""
    out = []
    g = Gen()
    for f in which:
        FAMS[f](g, thorough)
    fam_words(g, list(words))
    fam_preds(g, list(words))
    fam_sizes(g, list(ints))
    fam_mix(g, 3000 if thorough else 400, ints)
    fam_mix(g, 600 if thorough else 120, (), 77, True)
    fam_mix(g, 3000 if thorough else 500, (), 4, False, True)
    out += g.items
    for f in FAMS:
        if f not in which:
            h = Gen()
            h.n, h.m = g.n, g.m
            FAMS[f](h, thorough)
            g.n, g.m = h.n, h.m
            out += [t for i, t in enumerate(h.items) if thorough or t.fam == "helper" or i % 3 == 0]
    return out


def closed(items):
    """without the items that name one which is not there"""
    import re
    mods = {t.mod for t in items}
    while True:  # what refers to something left out is left out too
        kept = [t for t in items if all(m in mods for m in re.findall(r"crate::types::(\w+)::", t.text()))]
        if len(kept) == len(items):
            return kept
        items, mods = kept, {t.mod for t in kept}


HEADER = '''//! Generated witness: derived types. Never executed.
#![allow(dead_code, unused, non_snake_case, non_camel_case_types, non_local_definitions, uncommon_codepoints, mixed_script_confusables, confusable_idents)]
pub fn no<T>(_: &T) -> bool { false }
pub const EXA: &str = "exa";
pub fn exs() -> String { String::from("exs") }
pub fn default_components() -> opg::Components { opg::Components::default() }
macro_rules! leaf { ($($n:ident)*) => { $(
    #[derive(serde::Serialize)]
    pub struct $n;
    impl opg::OpgModel for $n {
        fn get_schema(_: &mut opg::Components) -> opg::Model { loop {} }
        fn type_name() -> Option<std::borrow::Cow<'static, str>> { loop {} }
    }
)* } }
leaf!(W0 W1 W2 W3 W4 W5 W6 W7 W8 W9);
pub mod types {
'''


def crate_text(items):
    out = HEADER
    for t in items:
        out += "pub mod %s { %s\n pub fn schema(cx: &mut opg::Components) -> opg::Model { <%s as opg::OpgModel>::get_schema(cx) }\n" % (t.mod, t.text(), t.ident)
        out += " pub fn name() -> Option<std::borrow::Cow<'static, str>> { <%s as opg::OpgModel>::type_name() }\n" % t.ident
        out += " pub fn mention(cx: &mut opg::Components, i: bool, p: &opg::ContextParams) -> opg::ModelReference { cx.mention_schema::<%s>(i, p) } }\n" % t.ident
    return out + "}\n"
