"""Abstract values of the library's document model: building, reading back, opaque leaves, abstract serializer."""
from interp import *
import natives
from natives import Natives, unit, lst, mp

MODELS = "opg::models::"


class World:
    def __init__(self, dump, **kw):
        self.I = Interp(dump, Natives(), **kw)
        self.by_path = {}
        for i, t in enumerate(dump["types"]):
            if t["k"] == "adt":
                self.by_path.setdefault(t["p"], []).append(i)
        self.sub = {}
        self.atoms = set()
        I = self.I
        I.hook_pred.append((self._is_leaf, self._leaf))
        I.hook_pred.append((lambda I, f: f["crate"] == dump["crate"] and (self._ser_name(f) is not None), self._ser))

    # ---- opaque strings, possibly specialised to a constant the code compares against
    def S(self, name):
        self.atoms.add(name)
        v = self.sub.get(name)
        return Str([v]) if v is not None else Str([Sym(name)])

    def any(self, path, key, links=None, size=2):
        """an arbitrary value of the type; references, if `links` are given, go to one of these"""
        self.I.state["lazies"] = True

        def atom(k):
            if links is not None and k.endswith(".Link"):
                known = self.I.state.setdefault("lazy", {})
                if k not in known:
                    known[k] = self.I.decide(len(links), k)
                return self.S(links[known[k]])
            return self.S(k)
        return Lazy(key, self.tid(path), atom, size)

    # ---- functions of the witness crate
    def fn(self, name):
        r = self.I.find_fn(self.I.d["crate"] + "::" + name)
        if not r:
            raise Undecided("no function %s" % name)
        return r[0]

    def has(self, name):
        return bool(self.I.find_fn(self.I.d["crate"] + "::" + name))

    def call(self, name, *args):
        return self.I.call(self.fn(name), list(args))

    def ret(self, name):
        return self.I.fns[self.fn(name)]["ret"]

    # ---- opaque leaf types W0..W9
    def _is_leaf(self, I, f):
        if f["ti"] not in ("opg::models::OpgModel::get_schema", "opg::models::OpgModel::type_name"):
            return False
        s = f["self"]
        return s is not None and I.tname(s).rsplit("::", 1)[-1] in self.leaf_names()

    def leaf_names(self):
        return ["W%d" % i for i in range(10)]

    def _leaf(self, I, f, args):
        n = I.tname(f["self"]).rsplit("::", 1)[-1]
        I.state.setdefault("leafcalls", []).append((f["ti"].rsplit("::", 1)[1], n))
        if f["ti"].endswith("type_name"):
            rt = f["ret"]
            cow = I.ty(rt)["a"][0]
            return I.some(rt, I.mk(cow, "Borrowed", self.S("name:" + n)))
        return self.leaf_schema(n)

    def leaf_schema(self, n):
        """an object schema nobody else builds: description is an atom of the type"""
        return self.mk("Model", description=self.S("schema:" + n),
                       data=self.en("ModelData", "Single", self.mk("ModelType", nullable=False,
                            type_description=self.en("ModelTypeDescription", "Boolean"))))

    # ---- building
    def tid(self, path):
        c = self.by_path.get(path) or self.by_path.get(MODELS + path)
        if not c:
            raise Undecided("type %s not found" % path)
        return c[0]

    def mk(self, path, **fields):
        return self.mk_t(self.tid(path), 0, fields)

    def mk_t(self, t, vi, fields):
        ty = self.I.ty(t)
        out = []
        for n, ft in ty["v"][vi]["f"]:
            out.append(self.coerce(fields[n], ft) if n in fields else Top)
        for n in fields:
            if n not in [x[0] for x in ty["v"][vi]["f"]]:
                raise Undecided("no field %s in %s" % (n, ty["p"]))
        return Agg(t, vi, out)

    def en(self, path, variant, *args, **fields):
        t = self.tid(path)
        i, v = self.I.variant(t, variant)
        if fields:
            return self.mk_t(t, i, fields)
        return Agg(t, i, [self.coerce(a, v["f"][k][1]) for k, a in enumerate(args)])

    def coerce(self, v, t):
        ty = self.I.ty(t)
        k = ty["k"]
        p = ty.get("p", "")
        if isinstance(v, (Agg, StringV, VecV, MapV, BoxV, Opaque, Lazy, Ref)) or v is Top:
            if p == "alloc::boxed::Box" and not isinstance(v, BoxV):
                return BoxV(v)
            if p == "core::option::Option" and not (isinstance(v, Agg) and v.t is not None and self.I.ty(v.t).get("p") == "core::option::Option") and v is not Top:
                return self.I.some(t, self.coerce(v, ty["a"][0]))
            return v
        if p == "core::option::Option":
            if v is None:
                return self.I.none(t)
            return self.I.some(t, self.coerce(v, ty["a"][0]))
        if p == "alloc::string::String":
            return StringV(v if isinstance(v, Str) else Str([v]))
        if p == "alloc::boxed::Box":
            return BoxV(self.coerce(v, ty["a"][0]))
        if p == "alloc::vec::Vec":
            return VecV([self.coerce(x, ty["a"][0]) for x in v])
        if p.endswith(("BTreeMap", "HashMap")):
            return MapV(hash=p.endswith("HashMap"), e=[[self.coerce(a, ty["a"][0]), self.coerce(b, ty["a"][1])] for a, b in (v.items() if isinstance(v, dict) else v)])
        if k == "tuple":
            return Agg(t, 0, [self.coerce(x, ty["a"][i]) for i, x in enumerate(v)])
        if k == "ref":
            if self.I.ty(ty["t"])["k"] == "str":
                return v if isinstance(v, Str) else Str([v])
        if k == "bool":
            return v if isinstance(v, IntV) else int(v)
        if k == "int":
            return v
        if k == "adt" and ty["ak"] == "struct" and len(ty["v"]) == 1 and len(ty["v"][0]["f"]) == 1:
            return Agg(t, 0, [self.coerce(v, ty["v"][0]["f"][0][1])])
        raise Undecided("cannot build %s from %r" % (p or k, v))

    # ---- reading back: a plain python term
    def term(self, v, t=None):
        I = self.I
        if v is Top:
            return Top
        if v.__class__ is Lazy:
            # what the code never looked at stays one unknown
            return self.term(I.force(v)) if v.key in I.state.get("lazy", {}) else ("any", v.key)
        if isinstance(v, Ref):
            return self.term(v.o[v.k], I.ty(t)["t"] if t is not None and I.ty(t)["k"] in ("ref", "ptr") else None)
        if isinstance(v, BoxV):
            return self.term(v.c[0])
        if isinstance(v, (Str, StringV)):
            s = to_str(v)
            c = s.conc()
            return c if c is not None else s
        if isinstance(v, VecV):
            return [self.term(x) for x in v.l]
        if isinstance(v, SliceRef):
            return [self.term(x) for x in v.items()]
        if isinstance(v, list):
            return [self.term(x) for x in v]
        if isinstance(v, MapV):
            return M([(self.term(k), self.term(x)) for k, x in natives.sorted_entries(v)])
        if isinstance(v, Agg):
            if v.t is None and t is None:
                return tuple(self.term(x) for x in v.f)
            ty = I.ty(v.t if v.t is not None else t)
            if ty["k"] == "tuple":
                return tuple(self.term(x) for x in v.f)
            if ty["k"] != "adt":
                return ("?", ty["k"])
            p = ty["p"]
            if p == "core::option::Option":
                return None if v.v == 0 else self.term(v.f[0])
            if p == "core::result::Result":
                return ("Ok" if v.v == 0 else "Err", self.term(v.f[0]) if v.f else ())
            if p == "alloc::borrow::Cow":
                return self.term(v.f[0])
            var = ty["v"][v.v]
            fs = {}
            for i, (n, ft) in enumerate(var["f"]):
                fs[n] = self.term(v.f[i], ft) if i < len(v.f) else Top
            if ty["ak"] == "enum":
                if not fs:
                    return E(var["n"])
                if list(fs) == [str(i) for i in range(len(fs))]:
                    return E(var["n"], *[fs[str(i)] for i in range(len(fs))])
                return E(var["n"], D(p.rsplit("::", 1)[1] + "::" + var["n"], fs))
            if list(fs) == ["0"]:
                return E(p.rsplit("::", 1)[1], fs["0"])
            return D(p.rsplit("::", 1)[1], fs)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            if t is not None and I.ty(t)["k"] == "bool":
                return bool(v)
            return v
        return v

    # ---- abstract serializer
    SER = {"serialize_seq": "seq", "serialize_tuple": "seq", "serialize_tuple_struct": "seq", "serialize_map": "map", "serialize_struct": "map"}

    def _ser_name(self, f):
        n = f["n"]
        if f["ti"] and f["ti"].startswith("serde_core::ser::") or (f["ti"] or "").startswith("serde::ser::"):
            return f["ti"]
        base = n.rsplit("::", 1)[1]
        if base.startswith("put_") or base == "newtype_variant":
            return base
        return None

    def fail_point(self, I, what):
        """the output fails at the n-th serializer operation when asked to"""
        c = I.state["serops"] = I.state.get("serops", 0) + 1
        I.state.setdefault("serlog", []).append(what)
        return I.state.get("fail_at") == c

    def _ser(self, I, f, a):
        nm = self._ser_name(f)
        m = nm.rsplit("::", 1)[1] if "::" in nm else nm
        rt = f["ret"]
        if m in ("serialize_element", "serialize_field", "serialize_key", "serialize_value", "serialize_newtype_struct", "collect_str", "serialize_some"):
            return NotImplemented
        if m in ("serialize_newtype_variant",):
            return NotImplemented
        if I.state.get("failed"):
            I.state["after_fail"] = I.state.get("after_fail", 0) + 1
        if m.startswith("put_") or m in ("end", "newtype_variant") or m.startswith("serialize_"):
            if self.fail_point(I, m):
                I.state["failed"] = True
                return I.err(rt, Opaque("SErr"))
        if m == "is_human_readable":
            return 1
        if m in self.SER:
            return I.ok(rt, Nat("ser", [self.SER[m], [], None]))
        if m in ("serialize_tuple_variant", "serialize_struct_variant"):
            return I.ok(rt, Nat("ser", ["seq" if "tuple" in m else "map", [], to_str(a[3])]))
        if m in ("serialize_bool",):
            return I.ok(rt, Nat("doc", bool(a[1]) if isinstance(a[1], int) else a[1]))
        if m.startswith("serialize_") and m[10:] in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char"):
            return I.ok(rt, Nat("doc", a[1]))
        if m == "serialize_str":
            s = to_str(a[1])
            return I.ok(rt, Nat("doc", s.conc() if s.conc() is not None else s))
        if m in ("serialize_none", "serialize_unit", "serialize_unit_struct"):
            return I.ok(rt, Nat("doc", None))
        if m == "serialize_unit_variant":
            s = to_str(a[3])
            return I.ok(rt, Nat("doc", s.conc()))
        if m == "newtype_variant":
            return I.ok(rt, Nat("doc", M([(to_str(a[0]).conc(), a[1].d)])))
        if m.startswith("put_elem"):
            peel(a[0]).d[1].append(a[1].d)
            return I.ok(rt, unit())
        if m == "put_key":
            peel(a[0]).d[1].append([a[1].d, Top])
            return I.ok(rt, unit())
        if m == "put_value":
            peel(a[0]).d[1][-1][1] = a[1].d
            return I.ok(rt, unit())
        if m.startswith("put_field"):
            peel(a[0]).d[1].append([to_str(a[1]).conc(), a[2].d])
            return I.ok(rt, unit())
        if m == "end":
            k, items, var = a[0].d
            d = list(items) if k == "seq" else M([(x, y) for x, y in items])
            if var is not None:
                d = M([(var.conc(), d)])
            return I.ok(rt, Nat("doc", d))
        if m == "skip_field":
            return I.ok(rt, unit())
        return NotImplemented


class M:
    """ordered key/value term"""
    def __init__(self, items):
        self.items = list(items)

    def keys(self):
        return [k for k, _ in self.items]

    def get(self, k, d=None):
        for a, b in self.items:
            if a == k:
                return b
        return d

    def __contains__(self, k):
        return any(a == k for a, _ in self.items)

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % x for x in self.items)

    def __len__(self):
        return len(self.items)


class E:
    """enum / newtype term"""
    def __init__(self, n, *a):
        self.n, self.a = n, a

    def __repr__(self):
        return self.n + ("(%s)" % ", ".join(map(repr, self.a)) if self.a else "")


class D:
    """struct term"""
    def __init__(self, n, f):
        self.n, self.f = n, f

    def __getitem__(self, k):
        if k not in self.f:
            raise Undecided("no field %s in %s" % (k, self.n))
        return self.f[k]

    def __repr__(self):
        return "%s{%s}" % (self.n, ", ".join("%s: %r" % x for x in self.f.items()))


class Mismatch(Exception):
    pass


def norm(x):
    if isinstance(x, StringV):
        x = x.s
    if isinstance(x, Sym):
        x = Str([x])
    if isinstance(x, Str):
        c = x.conc()
        return c if c is not None else x
    return x


def diff(got, want, path="", ordered=True):
    """None when equal, else a text; raises Undecided when the result contains ⊤ where it matters.
    `want` struct terms may be partial dicts {field: term}; M compared as maps."""
    got, want = norm(got), norm(want)
    if want is Any:
        return None
    if got is Top:
        raise Undecided("⊤ at %s" % path)
    if isinstance(want, dict):
        if isinstance(got, M):
            g = {norm(k): v for k, v in got.items}
            if len(g) != len(got.items):
                return "%s: duplicate keys %r" % (path, got.keys())
            w = {norm(k): v for k, v in want.items()}
            if set(g) != set(w):
                return "%s: keys %s, expected %s" % (path, sorted(map(repr, g)), sorted(map(repr, w)))
            for k in w:
                r = diff(g[k], w[k], "%s.%s" % (path, k))
                if r:
                    return r
            return None
        if isinstance(got, D):
            for k, w in want.items():
                r = diff(got[k], w, "%s.%s" % (path, k))
                if r:
                    return r
            return None
        return "%s: %r, expected %r" % (path, got, want)
    if isinstance(want, M):
        if not isinstance(got, M):
            return "%s: %r, expected %r" % (path, got, want)
        return diff(got, dict((norm(k), v) for k, v in want.items), path)
    if isinstance(want, D):
        return diff(got, want.f, path) if isinstance(got, D) else "%s: %r, expected %r" % (path, got, want)
    if isinstance(want, E):
        if not isinstance(got, E) or got.n != want.n or len(got.a) != len(want.a):
            return "%s: %r, expected %r" % (path, got, want)
        for i, (g, w) in enumerate(zip(got.a, want.a)):
            r = diff(g, w, "%s/%s" % (path, want.n))
            if r:
                return r
        return None
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return "%s: %r, expected %r" % (path, got, want)
        for i, (g, w) in enumerate(zip(got, want)):
            r = diff(g, w, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(want, bool) or isinstance(got, bool):
        if isinstance(got, IntV) or isinstance(want, IntV):
            if got == want:
                return None
            raise Undecided("opaque bool at %s" % path)
        return None if int(bool(got)) == int(bool(want)) and isinstance(got, (bool, int)) and got is not None else "%s: %r, expected %r" % (path, got, want)
    if got == want:
        return None
    return "%s: %r, expected %r" % (path, got, want)


class _Any:
    def __repr__(self):
        return "*"


Any = _Any()
