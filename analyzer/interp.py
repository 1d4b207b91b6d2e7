"""Abstract interpreter over the monomorphised MIR dumped by driver/.

Domain: constants, shape terms (aggregates), opaque atoms (Sym strings, Opaque values) and Top.
Nothing of the analysed program is executed by the machine: only its MIR is inspected.
Branches on values the domain cannot decide are followed on every side (trace partitioning, by
re-interpretation with a decision prefix).  Whatever the models cannot express raises Undecided,
which is never an alarm.
"""
import os, sys, json, threading

sys.setrecursionlimit(200000)


class Undecided(Exception):
    pass


class Panic(Exception):
    pass


class Diverge(Exception):
    pass


class _Top:
    def __repr__(self):
        return "⊤"


Top = _Top()


class _Uninit:
    def __repr__(self):
        return "uninit"


Uninit = _Uninit()


class Sym:
    """opaque non-empty string (an arbitrary value in generic position)"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "⟨%s⟩" % self.n

    def __eq__(self, o):
        return isinstance(o, Sym) and o.n == self.n

    def __hash__(self):
        return hash(("Sym", self.n))


class Ch:
    """abstract character: cls is one of U (upper), L (lower), D (digit), X (other, caseless), or of the
    two-byte characters N (upper), M (lower) and C (caseless); f is the case mapping applied to it: '' | 'up' | 'low'"""
    __slots__ = ("n", "cls", "f")

    def __init__(self, n, cls, f=""):
        self.n, self.cls, self.f = n, cls, f

    def __repr__(self):
        s = "%s%s" % (self.cls, self.n)
        return "%s(%s)" % (self.f, s) if self.f else s

    def __eq__(self, o):
        return isinstance(o, Ch) and (o.n, o.cls, o.f) == (self.n, self.cls, self.f)

    def __hash__(self):
        return hash((self.n, self.cls, self.f))

    def upper(self):
        if self.cls == "L" or self.f == "low":
            return Ch(self.n, self.cls, "" if self.cls == "U" else "up")
        return self

    def lower(self):
        if self.cls == "U" or self.f == "up":
            return Ch(self.n, self.cls, "" if self.cls == "L" else "low")
        return self

    def key(self):
        """the set of characters it can be"""
        return "U" if self.is_upper() else "L" if self.is_lower() else self.cls

    def is_upper(self):
        return (self.cls == "U" and self.f != "low") or self.f == "up"

    def is_lower(self):
        return (self.cls == "L" and self.f != "up") or self.f == "low"


class Str:
    """&str / string content: tuple of python str pieces, Sym and Ch atoms"""
    __slots__ = ("p",)

    def __init__(self, p=()):
        out = []
        for x in ((p,) if isinstance(p, str) else p):
            if isinstance(x, Str):
                for y in x.p:
                    if isinstance(y, str) and out and isinstance(out[-1], str):
                        out[-1] += y
                    else:
                        out.append(y)
            elif isinstance(x, str):
                if x == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
            else:
                out.append(x)
        self.p = tuple(out)

    def conc(self):
        if not self.p:
            return ""
        if len(self.p) == 1 and isinstance(self.p[0], str):
            return self.p[0]
        return None

    def __eq__(self, o):
        return isinstance(o, Str) and o.p == self.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        c = self.conc()
        if c is not None:
            return json.dumps(c, ensure_ascii=False)
        return "".join(x if isinstance(x, str) else repr(x) for x in self.p)

    def chars(self):
        """list of int codepoints / Ch, or None when an opaque string is inside"""
        out = []
        for x in self.p:
            if isinstance(x, str):
                out.extend(ord(c) for c in x)
            elif isinstance(x, Ch):
                out.append(x)
            else:
                return None
        return out

    @staticmethod
    def of_chars(cs):
        return Str([chr(c) if isinstance(c, int) else c for c in cs])


class StringV:
    __slots__ = ("s",)

    def __init__(self, s=None):
        self.s = s if s is not None else Str()

    def __repr__(self):
        return repr(self.s)


class StrMut:
    """&mut str: units lo..hi of a string"""
    __slots__ = ("o", "lo", "hi")

    def __init__(self, o, lo, hi):
        self.o, self.lo, self.hi = o, lo, hi


class Agg:
    __slots__ = ("t", "v", "f")

    def __init__(self, t, v, f):
        self.t, self.v, self.f = t, v, f

    def __repr__(self):
        return "Agg(%s,%s,%r)" % (self.t, self.v, self.f)


class Ref:
    __slots__ = ("o", "k", "dyn")

    def __init__(self, o, k, dyn=None):
        self.o, self.k, self.dyn = o, k, dyn

    def __repr__(self):
        try:
            return "&%r" % (self.o[self.k],)
        except Exception:
            return "&?"


class SliceRef:
    __slots__ = ("l", "a", "b")

    def __init__(self, l, a=0, b=None):
        self.l, self.a, self.b = l, a, len(l) if b is None else b

    def items(self):
        return self.l[self.a:self.b]

    def __repr__(self):
        return "&%r" % (self.items(),)


class BoxV:
    """Box / Rc / Arc content cell"""
    __slots__ = ("c", "dyn")

    def __init__(self, v, dyn=None):
        self.c = [v]
        self.dyn = dyn

    def __repr__(self):
        return "Box(%r)" % (self.c[0],)


class VecV:
    __slots__ = ("l",)

    def __init__(self, l=None):
        self.l = l if l is not None else []

    def __repr__(self):
        return "vec%r" % (self.l,)


class MapV:
    """BTreeMap (hash=False) / HashMap (hash=True); entries are [key, value] cells"""
    __slots__ = ("e", "hash")

    def __init__(self, e=None, hash=False):
        self.e = e if e is not None else []
        self.hash = hash

    def __repr__(self):
        return "map{%s}" % ", ".join("%r: %r" % (k, v) for k, v in self.e)


class It:
    """materialised native iterator"""
    __slots__ = ("q",)

    def __init__(self, q):
        self.q = list(q)

    def __repr__(self):
        return "It%r" % (self.q,)


class FnV:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "fn#%s" % self.i


CUR = [None]  # the interpreter at work


class Lazy:
    """an arbitrary value of an ADT: becomes concrete, one constructor at a time, where the code looks into it.  What was
    decided is kept under the key, so that every copy becomes the same value"""
    __slots__ = ("key", "t", "atom", "size")

    def __init__(self, key, t, atom, size=2):
        self.key, self.t, self.atom, self.size = key, t, atom, size

    def __repr__(self):
        return "⟪any %s⟫" % self.key

    def __eq__(self, o):
        return isinstance(o, Lazy) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Opaque:
    """opaque value of some type; refuses to be looked into"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "⟪%s⟫" % (self.n,)

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.n == self.n

    def __hash__(self):
        return hash(("Opaque", self.n))


class Nat:
    """native model object with a python payload (token streams, formatters, ...)"""
    __slots__ = ("k", "d")

    def __init__(self, k, d):
        self.k, self.d = k, d

    def __repr__(self):
        return "%s(%r)" % (self.k, self.d)


class IntV:
    """opaque integer / undecided boolean"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "int⟨%s⟩" % (self.n,)

    def __eq__(self, o):
        return isinstance(o, IntV) and o.n == self.n

    def __hash__(self):
        return hash(("IntV", self.n))


def copyv(v, memo=None):
    """value copy; references are shared"""
    if isinstance(v, Agg):
        return Agg(v.t, v.v, [copyv(x) for x in v.f])
    if isinstance(v, list):
        return [copyv(x) for x in v]
    if isinstance(v, StringV):
        return StringV(v.s)
    if isinstance(v, VecV):
        return VecV([copyv(x) for x in v.l])
    if isinstance(v, MapV):
        return MapV([[copyv(k), copyv(x)] for k, x in v.e], v.hash)
    if isinstance(v, BoxV):
        b = BoxV(copyv(v.c[0]), v.dyn)
        return b
    if isinstance(v, It):
        return It([copyv(x) for x in v.q])
    return v


def peel(v):
    """look through references and boxes"""
    n = 0
    while True:
        if isinstance(v, Ref):
            o, k = v.o, v.k
            v = o[k]
            if v.__class__ is Lazy:
                v = o[k] = CUR[0].force(v)
        elif isinstance(v, BoxV):
            o, k = v.c, 0
            v = o[k]
            if v.__class__ is Lazy:
                v = o[k] = CUR[0].force(v)
        else:
            return v
        n += 1
        if n > 50:
            raise Undecided("cyclic reference")


def to_str(v):
    v = peel(v)
    if isinstance(v, StringV):
        return v.s
    if isinstance(v, Str):
        return v
    if isinstance(v, StrMut):
        us = []
        for x in v.o.s.p:
            us.extend(x) if isinstance(x, str) else us.append(x)
        return Str(us[v.lo:v.hi])
    if isinstance(v, Agg) and len(v.f) == 1:  # Cow and friends
        return to_str(v.f[0])
    raise Undecided("not a string: %r" % (v,))


UMAX = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def wrap(n, v):
    if n not in UMAX or not isinstance(v, int):
        return v
    b = UMAX[n]
    v &= (1 << b) - 1
    if n[0] == "i" and v >> (b - 1):
        v -= 1 << b
    return v


class Frame:
    __slots__ = ("L",)


class Interp:
    def __init__(self, dump, natives, budget=3_000_000, maxdepth=400):
        self.d = dump
        self.types = dump["types"]
        self.fns = dump["fns"]
        self.natives = natives
        self.budget0 = budget
        self.maxdepth = maxdepth
        self.vt = {}
        for f, head, es in dump["vtables"]:
            self.vt[(f, head)] = es
        self.hooks = {}          # name -> python function (per analysis)
        self.hook_pred = []      # (predicate(fn), handler)
        self.reset([])
        self.undecided_fns = {}
        self.visited = set()
        self._byname = None

    def reset(self, decisions):
        self.steps = 0
        self.budget = self.budget0
        self.depth = 0
        self.dec = list(decisions)
        self.dpos = 0
        self.alts = []
        self.trace = []
        self.assumed = []
        self.stack = []
        self.state = {}
        CUR[0] = self

    # ---- decisions
    def decide(self, n, why):
        if self.dpos < len(self.dec):
            r = self.dec[self.dpos]
        else:
            r = 0
            self.dec.append(0)
        self.alts.append(n)
        self.trace.append((why, r))
        self.dpos += 1
        return r

    def explore(self, run, maxpaths=256):
        """run(self) on every decision vector; yields (outcome, value, trace)"""
        work = [[]]
        out = []
        while work:
            dec = work.pop()
            self.reset(dec)
            try:
                v = run(self)
                res = ("ok", v)
            except Panic as e:
                res = ("panic", str(e))
            except Diverge as e:
                res = ("diverge", str(e))
            except Undecided as e:
                res = ("undecided", str(e))
            except RecursionError:
                res = ("diverge", "python recursion")
            except Exception as e:
                if os.environ.get("VERIF_DEBUG"):
                    raise
                res = ("undecided", "unmodelled: %s %s @ %s" % (type(e).__name__, e, " < ".join(reversed(self.stack[-5:]))))
            out.append((res[0], res[1], list(self.trace), list(self.assumed)))
            for i in range(len(dec), len(self.alts)):
                for a in range(1, self.alts[i]):
                    work.append(self.dec[:i] + [a])
            if len(out) + len(work) > maxpaths:
                out.append(("undecided", "too many paths", [], []))
                break
        return out

    # ---- names and types
    def fn(self, i):
        return self.fns[i]

    def ty(self, t):
        return self.types[t]

    def tname(self, t):
        if t is None:
            return "?"
        x = self.types[t]
        k = x["k"]
        if k == "adt":
            return x["p"]
        if k in ("int", "float"):
            return x["n"]
        if k == "ref":
            return "&" + self.tname(x["t"])
        if k in ("closure", "fndef"):
            return x["p"]
        if k == "dyn":
            return x["p"]
        return k

    def variant(self, t, name):
        x = self.types[t]
        for i, v in enumerate(x["v"]):
            if v["n"] == name:
                return i, v
        raise Undecided("no variant %s in %s" % (name, x.get("p")))

    def mk(self, t, name, *fields):
        i, v = self.variant(t, name)
        return Agg(t, i, list(fields))

    def some(self, t, v):
        return Agg(t, 1, [v])

    def none(self, t):
        return Agg(t, 0, [])

    def ok(self, t, v):
        return Agg(t, 0, [v])

    def err(self, t, v):
        return Agg(t, 1, [v])

    def opt(self, t, v):
        return self.none(t) if v is None else self.some(t, v)

    def find_fn(self, name, pred=None):
        if self._byname is None:
            self._byname = {}
            for i, f in enumerate(self.fns):
                self._byname.setdefault(f["n"], []).append(i)
        return [i for i in self._byname.get(name, ()) if pred is None or pred(self.fns[i])]

    # ---- constants
    def const(self, t, v):
        if v is None:
            ty = self.types[t]
            if ty["k"] in ("fndef",):
                return FnV(ty["i"])
            if ty["k"] == "tuple" and not ty["a"]:
                return Agg(t, 0, [])
            if ty["k"] == "adt" and ty["ak"] == "struct" and ty["v"] and not ty["v"][0]["f"]:
                return Agg(t, 0, [])
            return Top
        ty = self.types[t]
        if "z" in v:
            if ty["k"] == "fndef":
                return FnV(ty["i"])
            return Agg(t, 0, [])
        if "i" in v:
            return v["i"]
        if "s" in v:
            return Str(v["s"])
        if "fn" in v:
            return FnV(v["fn"])
        if "static" in v:
            k = ("static", v["static"])
            if v.get("init") is None:
                return Opaque("static " + v["static"])
            if k not in self.state:
                self.state[k] = [self.const(v["t"], v["init"])]
            return Ref(self.state[k], 0)
        if "ref" in v:
            it = v["t"]
            x = v["ref"]
            if self.types[it]["k"] == "slice":
                if x is None:
                    return Top
                return SliceRef([self.const(self.types[it]["t"], y) for y in x["l"]])
            return Ref([self.const(it, x)], 0)
        if "v" in v:
            fs = []
            fl = ty["v"][v["v"]]["f"] if ty.get("v") else []
            for j, y in enumerate(v["f"]):
                fs.append(self.const(fl[j][1], y) if j < len(fl) else Top)
            return self._nativize(t, Agg(t, v["v"], fs))
        if "l" in v:
            if ty["k"] == "array":
                return [self.const(ty["t"], y) for y in v["l"]]
            if ty["k"] == "tuple":
                return Agg(t, 0, [self.const(ty["a"][j], y) for j, y in enumerate(v["l"])])
            fl = ty["v"][0]["f"] if ty.get("v") else []
            return self._nativize(t, Agg(t, 0, [self.const(fl[j][1], y) if j < len(fl) else Top for j, y in enumerate(v["l"])]))
        return Top

    def _nativize(self, t, a):
        p = self.types[t].get("p", "")
        if p == "alloc::vec::Vec":
            return VecV()
        if p == "alloc::string::String":
            return StringV()
        if p.endswith("BTreeMap") or p.endswith("HashMap"):
            return MapV(hash=p.endswith("HashMap"))
        return a

    # ---- places
    def slot(self, F, pl):
        o, k = F, pl[0]
        for e in pl[1:]:
            if e == "*":
                v = o[k]
                c = v.__class__
                if c is Ref:
                    o, k = v.o, v.k
                elif c is BoxV:
                    o, k = v.c, 0
                elif c in (Str, SliceRef, StrMut, It, Nat, FnV):
                    pass
                elif v is Top:
                    o, k = [Top], 0
                elif c is Opaque:
                    pass
                else:
                    raise Undecided("deref of %r" % (v,))
                continue
            op = e[0]
            if op == "f":
                v = o[k]
                c = v.__class__
                if c is Lazy:
                    v = o[k] = self.force(v)
                    c = v.__class__
                if c is Agg:
                    f = v.f
                    while len(f) <= e[1]:
                        f.append(Uninit)
                    o, k = f, e[1]
                elif v is Uninit:
                    a = Agg(None, 0, [Uninit] * (e[1] + 1))
                    o[k] = a
                    o, k = a.f, e[1]
                elif c in (BoxV, Ref):
                    pass
                elif v is Top:
                    o, k = [Top], 0
                elif c is Opaque:
                    o, k = [self.opaque_field(v, e)], 0
                elif c is list:
                    pass
                else:
                    raise Undecided("field of %r" % (v,))
            elif op == "d":
                if o[k].__class__ is Agg and o[k].t is None:
                    o[k].v = e[1]
                continue
            elif op == "i":
                v = o[k]
                ix = F[e[1]]
                if not isinstance(ix, int):
                    raise Undecided("index %r" % (ix,))
                if v.__class__ is list:
                    o, k = v, ix
                elif v.__class__ is SliceRef:
                    o, k = v.l, v.a + ix
                else:
                    raise Undecided("index into %r" % (v,))
            elif op == "ci":
                v = o[k]
                if v.__class__ is list:
                    n = len(v)
                    o, k = v, (n - e[1] if e[2] else e[1])
                elif v.__class__ is SliceRef:
                    o, k = v.l, (v.b - e[1] if e[2] else v.a + e[1])
                else:
                    raise Undecided("cindex into %r" % (v,))
            elif op == "ss":
                v = o[k]
                if v.__class__ is list:
                    v = SliceRef(v)
                if v.__class__ is SliceRef:
                    o, k = [SliceRef(v.l, v.a + e[1], (v.b - e[2]) if e[3] else v.a + e[2])], 0
                else:
                    raise Undecided("subslice of %r" % (v,))
            else:
                raise Undecided("projection")
        return o, k

    def opaque_field(self, v, e):
        raise Undecided("field %s of opaque %r" % (e[1], v))

    def operand(self, F, o):
        op = o[0]
        if op == "m":
            pl = o[1]
            if len(pl) == 1:
                return F[pl[0]]
            a, k = self.slot(F, pl)
            return a[k]
        if op == "c":
            pl = o[1]
            if len(pl) == 1:
                v = F[pl[0]]
            else:
                a, k = self.slot(F, pl)
                v = a[k]
            if v.__class__ in (Agg, list, StringV, VecV, MapV, BoxV):
                if v.__class__ is BoxV:
                    return v
                return copyv(v)
            return v
        if op == "k":
            return self.const(o[1], o[2])
        if op == "rc":
            return 0  # run-time checks of the library's own preconditions are off
        return Top

    # ---- execution
    def call(self, fi, args):
        if not isinstance(fi, int):
            raise Undecided("unresolved callee %s" % (fi,))
        f = self.fns[fi]
        name = f["n"]
        h = self.hooks.get(name)
        if h is None and self.hook_pred:
            h = f.get("_h", 0)
            if h == 0:
                h = None
                for p, g in self.hook_pred:
                    if p(self, f):
                        h = g
                        break
                f["_h"] = h
        if h is not None:
            r = h(self, f, args)
            if r is not NotImplemented:
                return r
        n = f.get("_n", 0)
        if n == 0:
            n = f["_n"] = self.natives.lookup(self, f)
        if self.state.get("lazies"):
            if f["ti"] == "core::clone::Clone::clone" and isinstance(args[0], Ref) and args[0].o[args[0].k].__class__ is Lazy:
                return args[0].o[args[0].k]
            if n is not None:
                args = [self.force(a) if a.__class__ is Lazy and self.types[a.t]["p"] == "core::option::Option" else a for a in args]
                for a in args[:1]:
                    if a.__class__ is Ref and a.o[a.k].__class__ is Lazy:
                        a.o[a.k] = self.force(a.o[a.k])
        if n is not None:
            self.steps += 1
            r = n(self, f, args)
            if r is not NotImplemented:
                return r
        b = f["body"]
        if b is None and f["kind"].startswith("virtual"):
            return self.call_virtual(f, args)
        if b is None:
            self.undecided_fns[name] = self.undecided_fns.get(name, 0) + 1
            raise Undecided("no model for %s" % name)
        if f["closure"]:
            # rust-call: the arguments arrive as a tuple
            if len(args) == 2 and isinstance(args[1], Agg):
                args = [args[0]] + list(args[1].f)
            a0 = args[0]
            st = self.types[b["locals"][1]]
            if st["k"] != "ref" and isinstance(a0, Ref):
                args = [a0.o[a0.k]] + list(args[1:])
        return self.exec_body(fi, f, b, args)

    def call_virtual(self, f, args):
        a = args[0]
        d = getattr(a, "dyn", None)
        if d is None and isinstance(a, Ref) and isinstance(a.o[a.k], BoxV):
            a = a.o[a.k]
            d = a.dyn
        if d is None:
            raise Undecided("virtual call on %r" % (a,))
        m = f["n"].rsplit("::", 1)[1]
        if m in ("call", "call_mut", "call_once") and "ops::function::Fn" in f["n"]:
            v = peel(a)
            if isinstance(v, FnV) or isinstance(v, Agg) and v.t is not None and self.types[v.t]["k"] == "closure":
                return self.call_value(v, list(args[1].f))
        for (src, head), es in self.vt.items():
            if src == d[0] and head == d[1]:
                for e in es:
                    if e and e[0].rsplit("::", 1)[1] == m:
                        r = a if isinstance(a, BoxV) else Ref(a.o, a.k)
                        return self.call(e[1], [r] + list(args[1:]))
        raise Undecided("no vtable entry %s for %s" % (m, d))

    def exec_body(self, fi, f, b, args):
        self.depth += 1
        self.visited.add(fi)
        if self.depth > self.maxdepth:
            self.depth -= 1
            raise Diverge("call depth in %s" % f["n"])
        self.stack.append(f["n"])
        F = [Uninit] * len(b["locals"])
        argc = b["argc"]
        for i, a in enumerate(args):
            F[i + 1] = a
        blocks = b["blocks"]
        bb = 0
        try:
            while True:
                stmts, term = blocks[bb]
                self.steps += 1 + len(stmts)
                if self.steps > self.budget:
                    raise Undecided("budget in %s" % f["n"])
                for s in stmts:
                    if s[0] == "sd":
                        o, k = self.slot(F, s[1])
                        if isinstance(o[k], Agg):
                            o[k].v = s[2]
                        else:
                            o[k] = Agg(None, s[2], [])
                        continue
                    v = self.rvalue(F, s[1], b)
                    pl = s[0]
                    if len(pl) == 1:
                        F[pl[0]] = v
                    else:
                        o, k = self.slot(F, pl)
                        o[k] = v
                op = term[0]
                if op == "goto":
                    bb = term[1]
                elif op == "switch":
                    bb = self.switch(F, term, f)
                elif op == "call":
                    callee = term[1]
                    av = [self.operand(F, x) for x in term[2]]
                    if isinstance(callee, list):
                        fv = self.operand(F, callee)
                        r = self.call_value(fv, av)
                    else:
                        r = self.call(callee, av)
                    if term[4] is None:
                        raise Panic("diverging call in %s" % f["n"])
                    pl = term[3]
                    if len(pl) == 1:
                        F[pl[0]] = r
                    else:
                        o, k = self.slot(F, pl)
                        o[k] = r
                    bb = term[4]
                elif op == "ret":
                    r = F[0]
                    if r is Uninit:
                        r = Agg(b["locals"][0], 0, [])
                    return r
                elif op == "drop":
                    ty = self.types[term[3]]
                    if ty["k"] == "adt" and ty.get("drop") is not None:
                        o, k = self.slot(F, term[1])
                        self.call(ty["drop"], [Ref(o, k)])
                    bb = term[2]
                elif op == "assert":
                    c = self.operand(F, term[1])
                    if isinstance(c, int):
                        if bool(c) != term[2]:
                            raise Panic("assert %s in %s" % (term[3], f["n"]))
                    elif term[3] in ("MisalignedPointerDereference", "NullPointerDereference", "NullReferenceConstructed", "InvalidEnumConstruction"):
                        pass  # pointer validity of compiler-generated code is not this analysis' subject
                    else:
                        raise Undecided("assert on %r" % (c,))
                    bb = term[4]
                elif op == "unreachable":
                    raise Undecided("unreachable reached in %s" % f["n"])
                else:
                    raise Undecided("terminator %s in %s" % (op, f["n"]))
        except Undecided as e:
            if not getattr(e, "at", None):
                e.at = list(self.stack[-6:])
                e.args = (str(e) + " @ " + " < ".join(reversed(self.stack[-5:])),)
            raise
        finally:
            self.depth -= 1
            self.stack.pop()

    def callv(self, fv, *args):
        """call a callable abstract value with untupled args"""
        return self.call_value(fv, list(args))

    def call_value(self, fv, args):
        n = 0
        v = fv
        ref = None
        while isinstance(v, (Ref, BoxV)):
            if isinstance(v, Ref):
                if v.dyn is not None:
                    ref = v
                    break
                ref = v
                v = v.o[v.k]
            else:
                ref = Ref(v.c, 0)
                v = v.c[0]
            n += 1
            if n > 20:
                raise Undecided("callable")
        if isinstance(v, FnV):
            return self.call(v.i, args)
        if isinstance(v, Agg) and v.t is not None and self.types[v.t]["k"] == "closure":
            t = self.types[v.t]
            f = self.fns[t["i"]]
            b = f["body"]
            if b is None:
                raise Undecided("closure without body")
            st = self.types[b["locals"][1]]
            a0 = v
            if st["k"] == "ref":
                a0 = ref if ref is not None else Ref([v], 0)
            return self.exec_body(t["i"], f, b, [a0] + list(args))
        raise Undecided("call of %r" % (v,))

    def switch(self, F, term, f):
        v = self.operand(F, term[1])
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            ty = self.types[term[4]]
            if ty["k"] == "int" and ty["n"][0] == "i" and v < 0:
                v += 1 << UMAX[ty["n"]]
            for val, tg in term[2]:
                if val == v:
                    return tg
            return term[3]
        if isinstance(v, Ch):
            # undecided only against characters of the same class
            for val, tg in term[2]:
                if self.ch_may_be(v, val):
                    self.assumed.append((Str([v]), Str(chr(val))))
            return term[3]
        tgs = []
        for val, tg in term[2]:
            if tg not in tgs:
                tgs.append(tg)
        if term[3] not in tgs:
            bl = f["body"]["blocks"][term[3]]
            if not (bl and bl[1][0] == "unreachable" and not bl[0]):
                tgs.append(term[3])
        if isinstance(v, IntV) or v is Top:
            r = self.decide(len(tgs), "%s: %r" % (term[5], v))
            return tgs[r]
        raise Undecided("switch on %r" % (v,))

    def ch_may_be(self, c, code):
        ch = chr(code)
        if code > 127:
            return c.cls == ("N" if ch.isupper() else "M" if ch.islower() else "C")
        cls = "U" if ch.isupper() else "L" if ch.islower() else "D" if ch.isdigit() else "_" if ch == "_" else "X"
        eff = "U" if c.is_upper() else "L" if c.is_lower() else c.cls
        return cls == eff

    def rvalue(self, F, r, b):
        op = r[0]
        if op == "use":
            return self.operand(F, r[1])
        if op == "ref":
            o, k = self.slot(F, r[1])
            if o is F and False:
                pass
            try:
                v = o[k]
            except (IndexError, KeyError):
                v = None
            # unsized places are denoted by their own pointer
            if v.__class__ in (Str, SliceRef, StrMut) and r[1][-1] == "*":
                return v
            if v.__class__ is SliceRef and len(r[1]) > 1 and r[1][-1][0] == "ss":
                return v
            if r[1][-1] == "*" and len(r[1]) >= 2:
                # reborrow keeps dyn information
                o2, k2 = self.slot(F, r[1][:-1])
                p = o2[k2]
                if p.__class__ is Ref:
                    return Ref(p.o, p.k, p.dyn)
                if p.__class__ is BoxV:
                    return Ref(p.c, 0, p.dyn)
                if p.__class__ in (Opaque, Nat, It, FnV):
                    return Ref([p], 0) if p.__class__ is not Opaque else p
            return Ref(o, k)
        if op == "agg":
            k = r[1]
            fs = [self.operand(F, x) for x in r[4]]
            if k == "array":
                return fs
            if k == "adt":
                if len(r) > 5 and r[5] is not None:
                    a = Agg(r[2], r[3], [Uninit] * (r[5] + 1))
                    a.f[r[5]] = fs[0]
                    return a
                return Agg(r[2], r[3], fs)
            if k in ("tuple", "closure"):
                return Agg(r[2], 0, fs)
            if k == "rawptr":
                return fs[0]
            return Top
        if op == "disc":
            o, k = self.slot(F, r[1])
            v = o[k]
            return self.disc(v, r[2], (o, k))
        if op == "bin":
            return self.binop(r[1], self.operand(F, r[2]), self.operand(F, r[3]), r[4])
        if op == "un":
            v = self.operand(F, r[2])
            if r[1] == "Not":
                if isinstance(v, int):
                    t = self.types[r[3]]
                    return int(not v) if t["k"] == "bool" else wrap(t["n"], ~v)
                if isinstance(v, IntV):
                    if isinstance(v.n, tuple) and v.n[0] == "not":
                        return v.n[1]
                    return IntV(("not", v))
                return Top
            if r[1] == "Neg":
                return -v if isinstance(v, int) else Top
            if r[1] == "PtrMetadata":
                if isinstance(v, SliceRef):
                    return v.b - v.a
                if isinstance(v, Ref) and isinstance(v.o[v.k], list):
                    return len(v.o[v.k])
                if isinstance(v, Str):
                    c = v.conc()
                    return len(c.encode()) if c is not None else IntV(("len", v))
                return Top
            return Top
        if op == "cast":
            return self.cast(r, F)
        if op == "rep":
            v = self.operand(F, r[1])
            return [copyv(v) for _ in range(r[2])]
        return Top

    def cast(self, r, F):
        kind, v, t, frm = r[1], self.operand(F, r[2]), r[3], r[4]
        if "Unsize" in kind:
            tt = self.types[t]
            tgt = tt.get("t") if tt["k"] in ("ref", "ptr") else (tt["a"][0] if tt.get("a") else None)
            tk = self.types[tgt] if tgt is not None else {"k": "?"}
            if tk["k"] == "slice":
                if isinstance(v, Ref):
                    x = v.o[v.k]
                    if isinstance(x, list):
                        return SliceRef(x)
                if isinstance(v, BoxV) and isinstance(v.c[0], list):
                    return v
                if isinstance(v, SliceRef):
                    return v
                return v
            if tk["k"] == "dyn":
                ft = self.types[frm]
                src = ft.get("t") if ft["k"] in ("ref", "ptr") else (ft["a"][0] if ft.get("a") else None)
                if isinstance(v, Ref):
                    return Ref(v.o, v.k, v.dyn or (src, tk["p"]))
                if isinstance(v, BoxV):
                    v.dyn = v.dyn or (src, tk["p"])
                    return v
                if isinstance(v, (Str, SliceRef, StrMut, Opaque, Nat, It)):
                    return Ref([v], 0, (src, tk["p"]))
            return v
        if "IntToInt" in kind:
            tt = self.types[t]
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return wrap(tt.get("n"), v) if tt["k"] == "int" else v
            return v
        if "Transmute" in kind and isinstance(v, int) and self.types[t]["k"] == "adt" and self.types[t]["p"] == "core::option::Option":
            return Agg(t, 1, [v]) if v else Agg(t, 0, [])  # Option<NonZero<_>>
        if "FnPointer" in kind or "PtrToPtr" in kind or "Transmute" in kind or "FnPtrToPtr" in kind or "Subtype" in kind or "PointerCoercion" in kind:
            return v
        return Top

    def force(self, v):
        """one constructor of an arbitrary value"""
        ty = self.types[v.t]
        known = self.state.setdefault("lazy", {})

        def pick(key, n):
            if n == 1:
                known.setdefault(key, 0)
                return 0
            if key not in known:
                known[key] = self.decide(n, key)
            return known[key]
        lim = self.state.get("lazy_depth")
        if lim is not None and ty["p"].endswith("::ModelReference") and v.key.count(".Inline") >= lim:
            ok = [i for i, x in enumerate(ty["v"]) if x["n"] != "Inline"]
            vi = ok[pick(v.key, len(ok))]
        else:
            vi = pick(v.key, len(ty["v"]))
        out = []
        for i, (n, ft) in enumerate(ty["v"][vi]["f"]):
            out.append(self.lazy_value("%s.%s" % (v.key, n if not n.isdigit() else ty["v"][vi]["n"]), ft, v, pick))
        return Agg(v.t, vi, out)

    def lazy_value(self, key, t, v, pick):
        ty = self.types[t]
        k, p = ty["k"], ty.get("p", "")
        if p == "alloc::string::String":
            return StringV(v.atom(key))
        if k == "bool":
            return pick(key, 2)
        if p == "alloc::boxed::Box":
            return BoxV(self.lazy_value(key, ty["a"][0], v, pick))
        if p == "alloc::vec::Vec":
            return VecV([self.lazy_value("%s[%d]" % (key, i), ty["a"][0], v, pick) for i in range(pick(key, v.size + 1))])
        if p.endswith("::BTreeMap"):
            return MapV([[self.lazy_value("%s#%d" % (key, i), ty["a"][0], v, pick), self.lazy_value("%s[%d]" % (key, i), ty["a"][1], v, pick)] for i in range(pick(key, v.size + 1))], False)
        if k == "tuple":
            return Agg(t, 0, [self.lazy_value("%s.%d" % (key, i), x, v, pick) for i, x in enumerate(ty["a"])])
        if k == "adt" and ty["v"]:
            return Lazy(key, t, v.atom, v.size)
        if k == "int":
            return (0, 7, 200)[pick(key, 3)]
        return Top

    def disc(self, v, t, slot=None):
        ty = self.types[t]
        if v.__class__ is Lazy:
            v = self.force(v)
            if slot is not None:
                slot[0][slot[1]] = v
        if isinstance(v, Agg):
            if ty["k"] == "adt" and ty["v"]:
                return ty["v"][v.v]["d"]
            return v.v
        if isinstance(v, Opaque) or v is Top:
            if ty["k"] == "adt" and ty["v"]:
                return self.refine_opaque(v, t, ty, slot)
            return Top
        if isinstance(v, IntV):
            return v
        if ty["k"] == "adt" and ty["p"] in ("core::option::Option", "core::result::Result") and self.tname(ty["a"][0]) in ("core::convert::Infallible", "never"):
            return int(ty["p"].endswith("Result"))  # only one variant is inhabited
        raise Undecided("discriminant of %r" % (v,))

    def refine_opaque(self, v, t, ty, slot):
        raise Undecided("discriminant of %r" % (v,))

    def binop(self, op, a, b, t):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            n = self.types[t].get("n")
            if op == "Eq":
                return int(a == b)
            if op == "Ne":
                return int(a != b)
            if op == "Lt":
                return int(a < b)
            if op == "Le":
                return int(a <= b)
            if op == "Gt":
                return int(a > b)
            if op == "Ge":
                return int(a >= b)
            if op == "Cmp":
                return Agg(None, (a > b) - (a < b) + 1, [])
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            if base in ("Add", "Sub", "Mul"):
                x = a + b if base == "Add" else a - b if base == "Sub" else a * b
                w = wrap(n, x)
                if op.endswith("WithOverflow"):
                    return Agg(None, 0, [w, int(w != x)])
                return w
            if op in ("Div", "Rem"):
                if b == 0:
                    raise Panic("division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "Div" else a - q * b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if base == "Shl":
                return wrap(n, a << b)
            if base == "Shr":
                return a >> b
            if op == "Offset":
                return Top
            return Top
        if isinstance(a, Ch) or isinstance(b, Ch):
            return self.ch_cmp(op, a, b)
        if op in ("Eq", "Ne") and isinstance(a, (Ref, BoxV)) and isinstance(b, (Ref, BoxV)):
            return Top
        if isinstance(a, IntV) or isinstance(b, IntV):
            if a == b:
                if op in ("Eq", "Le", "Ge"):
                    return 1
                if op in ("Ne", "Lt", "Gt"):
                    return 0
            if op.endswith("WithOverflow"):
                return Agg(None, 0, [IntV((op, a, b)), 0])
            if op in ("BitAnd", "BitOr") and isinstance(b, int) and self.types[t]["k"] == "bool":
                return (a if b else 0) if op == "BitAnd" else (1 if b else a)
            if op in ("BitAnd", "BitOr") and isinstance(a, int) and self.types[t]["k"] == "bool":
                return (b if a else 0) if op == "BitAnd" else (1 if a else b)
            return IntV((op, a, b))
        if op.endswith("WithOverflow"):
            return Agg(None, 0, [Top, 0])
        return Top

    def ch_cmp(self, op, a, b):
        if isinstance(a, Ch) and isinstance(b, Ch):
            if a == b:
                return int(op in ("Eq", "Le", "Ge"))
            if op in ("Eq", "Ne"):
                if a.key() == b.key():
                    self.assumed.append((Str([a]), Str([b])))
                return int(op == "Ne")
            return Top
        c, o = (a, b) if isinstance(a, Ch) else (b, a)
        if not isinstance(o, int):
            return Top
        if op in ("Eq", "Ne"):
            if self.ch_may_be(c, o):
                self.assumed.append((Str([c]), Str(chr(o))))
            return int(op == "Ne")
        # range comparisons against ASCII bounds ('a'..='z' and so on)
        eff = "U" if c.is_upper() else "L" if c.is_lower() else c.cls
        rng = {"U": (65, 90), "L": (97, 122), "D": (48, 57), "_": (95, 95), "N": (128, 0x10ffff), "M": (128, 0x10ffff), "C": (128, 0x10ffff)}.get(eff)
        if rng is None:
            return Top
        lo, hi = rng
        if isinstance(b, Ch):
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if op == "Le":
            return 1 if hi <= o else 0 if lo > o else Top
        if op == "Lt":
            return 1 if hi < o else 0 if lo >= o else Top
        if op == "Ge":
            return 1 if lo >= o else 0 if hi < o else Top
        if op == "Gt":
            return 1 if lo > o else 0 if hi <= o else Top
        return Top

    # ---- equality of strings in generic position
    def str_eq(self, a, b):
        if a == b:
            return 1
        ca, cb = a.conc(), b.conc()
        if ca is not None and cb is not None:
            return 0
        pa, pb = list(a.p), list(b.p)
        while pa and pb and pa[0] == pb[0]:
            pa.pop(0)
            pb.pop(0)
        while pa and pb and pa[-1] == pb[-1]:
            pa.pop()
            pb.pop()
        if pa and pb:
            x, y = pa[0], pb[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return 0
            if isinstance(x, Ch) and isinstance(y, str) and not self.ch_may_be(x, ord(y[0])):
                return 0
            if isinstance(y, Ch) and isinstance(x, str) and not self.ch_may_be(y, ord(x[0])):
                return 0
            cs, ds = Str(pa).chars(), Str(pb).chars()
            if cs is not None and ds is not None and len(cs) != len(ds):
                return 0
        elif not any(isinstance(x, Sym) for x in pa + pb):
            return 0
        self.assumed.append((a, b))
        return 0

    def veq(self, a, b):
        a, b = peel(a), peel(b)
        if isinstance(a, Agg) and a.t is not None and self.types[a.t].get("p") == "alloc::borrow::Cow":
            a = peel(a.f[0])
        if isinstance(b, Agg) and b.t is not None and self.types[b.t].get("p") == "alloc::borrow::Cow":
            b = peel(b.f[0])
        if isinstance(a, (StringV, Str)) and isinstance(b, (StringV, Str)):
            return self.str_eq(to_str(a), to_str(b))
        if isinstance(a, int) and isinstance(b, int):
            return int(a == b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if len(a.f) == 1 and a.t != b.t and isinstance(peel(a.f[0]), (Str, StringV)):
                return self.str_eq(to_str(a), to_str(b))
            if a.v != b.v:
                return 0
            r = 1
            for x, y in zip(a.f, b.f):
                e = self.veq(x, y)
                if e == 0:
                    return 0
                if e != 1:
                    r = Top
            return r
        la = a.l if isinstance(a, VecV) else a.items() if isinstance(a, SliceRef) else a if isinstance(a, list) else None
        lb = b.l if isinstance(b, VecV) else b.items() if isinstance(b, SliceRef) else b if isinstance(b, list) else None
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return 0
            r = 1
            for x, y in zip(la, lb):
                e = self.veq(x, y)
                if e == 0:
                    return 0
                if e != 1:
                    r = Top
            return r
        if isinstance(a, MapV) and isinstance(b, MapV):
            if len(a.e) != len(b.e):
                return 0
            r = 1
            for k, x in a.e:
                found = 0
                for k2, y in b.e:
                    e = self.veq(k, k2)
                    if e == 1:
                        e = self.veq(x, y)
                        found = 1 if e == 1 else 0 if e == 0 else Top
                        break
                    if e != 0:
                        found = Top
                if found == 0:
                    return 0
                if found != 1:
                    r = Top
            return r
        if isinstance(a, (Opaque, IntV, Ch)) and a == b:
            return 1
        if isinstance(a, Ch) or isinstance(b, Ch):
            return self.ch_cmp("Eq", a, b)
        return Top


def run_big(f):
    """run f in a thread with a large stack"""
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def g():
        try:
            out.append(("ok", f()))
        except BaseException as e:  # noqa
            import traceback
            traceback.print_exc()
            out.append(("exc", e))
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if out[0][0] == "exc":
        raise out[0][1]
    return out[0][1]
