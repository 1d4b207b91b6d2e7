"""C14: the derive's case conversion against serde's, on words of abstract characters.

A character is an arbitrary member of its class (ASCII upper/lower, digit, underscore, non-ASCII upper/lower/caseless);
a word is a sequence of classes.  Code that compares a character with a constant or with another character is re-analysed
with the character specialised to it."""
import itertools
from engine import *
from interp import Ch, Str, StringV
from world import World
import serde_case
from serde_case import RULES

A = "opg_derive/src/case.rs"
CLS = "UL_DNMC"


def up(c):
    return c.upper() if isinstance(c, Ch) else chr(c - 32) if isinstance(c, str) else c


# serde's rules on lists of units (python characters and Ch)
def aup(c):
    return c.upper() if isinstance(c, Ch) else serde_case.up(c)


def alow(c):
    return c.lower() if isinstance(c, Ch) else serde_case.low(c)


def isupper(c):
    return (c.is_upper() or c.cls == "N") if isinstance(c, Ch) else c.isupper()


def snake(v):
    out = []
    for i, c in enumerate(v):
        if i and isupper(c):
            out.append("_")
        out.append(alow(c))
    return out


def dash(v):
    return ["-" if c == "_" else c for c in v]


def variant(rule, v):
    if rule == "PascalCase":
        return v
    if rule == "lowercase":
        return list(map(alow, v))
    if rule == "UPPERCASE":
        return list(map(aup, v))
    if rule == "camelCase":
        return [alow(v[0])] + v[1:]
    s = snake(v)
    return {"snake_case": s, "SCREAMING_SNAKE_CASE": list(map(aup, s)), "kebab-case": dash(s), "SCREAMING-KEBAB-CASE": dash(map(aup, s))}[rule]


def pascal(f):
    out, cap = [], True
    for c in f:
        if c == "_":
            cap = True
        elif cap:
            out.append(aup(c))
            cap = False
        else:
            out.append(c)
    return out


def field(rule, f):
    if rule in ("lowercase", "snake_case"):
        return f
    if rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return list(map(aup, f))
    if rule == "kebab-case":
        return dash(f)
    if rule == "SCREAMING-KEBAB-CASE":
        return dash(map(aup, f))
    p = pascal(f)
    if rule == "PascalCase":
        return p
    return [alow(p[0])] + p[1:]


def nonascii(c):
    return c.cls in "NMC" if isinstance(c, Ch) else not c.isascii()


def defined(what, rule, w):
    """serde itself cannot convert a first character of several bytes, nor a name of underscores only, to camelCase"""
    if rule != "camelCase":
        return True
    if what == "variant":
        return not nonascii(w[0])
    p = pascal(w)
    return bool(p) and not nonascii(p[0])


def words(thorough):
    out = []
    for n in (1, 2, 3):
        out += itertools.product(CLS, repeat=n)
    out += itertools.product(CLS, repeat=4)
    out += itertools.product("UL_D", repeat=5)
    out += itertools.product("UL_", repeat=6)
    if thorough:
        out += itertools.product(CLS, repeat=5)
        out += itertools.product("UL_D", repeat=7)
    for s in ("ULLLUUULDDLLULL", "LLL_LLLL_D_LL__L_", "__LL_UUU_LDL", "UUUUULLLL_UUUU", "L" * 40, "U" * 40, "UL" * 20, "L_" * 20, "LNMCU_LN", "L" * 60 + "_L"):
        out.append(tuple(s))
    return [w for w in out if not (w[0] == "D") and set(w) != {"_"}]


def sym(w):
    return ["_" if c == "_" else Ch(i, c) for i, c in enumerate(w)]


def subst(units, sub):
    out = []
    for u in units:
        if isinstance(u, Ch) and u.n in sub:
            x = sub[u.n]
            out.append(x if isinstance(x, str) else Ch(x, u.cls))
        else:
            out.append(u)
    return out


def refinements(assumed, w):
    cls = {u.n: u.cls for u in w if isinstance(u, Ch)}

    def orig(c, o):
        """the value of the word's character that makes the (possibly converted) character c equal o"""
        if isinstance(o, Ch):
            return o.n if cls.get(o.n) == cls.get(c.n) else None
        for x in (o, o.swapcase()):
            if len(x) == 1 and (x.isupper(), x.islower(), x.isdigit()) == {"U": (True, False, False), "L": (False, True, False), "D": (False, False, True), "N": (True, False, False), "M": (False, True, False), "C": (False, False, False)}[cls[c.n]] and x.isascii() == (cls[c.n] in "ULD"):
                return x
        return None
    out = []
    for a, b in assumed:
        xs, ys = units(a), units(b)
        if xs is None or ys is None or len(xs) != len(ys):
            continue
        s = {}
        for x, y in zip(xs, ys):
            if x == y:
                continue
            c, o = (x, y) if isinstance(x, Ch) else (y, x)
            if not isinstance(c, Ch) or c.n not in cls:
                s = None
                break
            v = orig(c, o)
            if v is None:
                s = None
                break
            s[c.n] = v
        if s:
            out.append(s)
    return out


def units(s):
    out = []
    for x in s.p:
        if isinstance(x, str):
            out.extend(x)
        elif isinstance(x, Ch):
            out.append(x)
        else:
            return None
    return out


def show(us):
    return "".join(u if isinstance(u, str) else repr(u) for u in us)


def c14(cx, rep):
    W = World(cx.derive_dump())
    I = W.I
    frm, conv = [], {}
    for i, f in enumerate(I.fns):
        if f["crate"] != "opg_derive":
            continue
        if f["ti"] == "core::str::traits::FromStr::from_str":
            frm.append((i, I.ty(f["ret"])["a"][0]))
    for i, rt in frm:
        p = I.ty(rt).get("p")
        for j, f in enumerate(I.fns):
            if f["n"].startswith(p + "::") and f.get("body") and f["body"]["argc"] == 2 and I.tname(f["ret"]) == "alloc::string::String":
                for what in ("variant", "field"):
                    if what in f["n"].rsplit("::", 1)[1]:
                        conv.setdefault((rt, what), []).append(j)
    rts = [(i, rt) for i, rt in frm if all(len(conv.get((rt, w), [])) == 1 for w in ("variant", "field"))]
    if len(rts) != 1:
        raise Undecided("the conversion rules were not found: %s" % [I.tname(rt) for _, rt in frm])
    parse, rt = rts[0]

    def rule_of(s):
        r = I.call(parse, [s if isinstance(s, Str) else Str(s)])
        return r

    # spellings
    rules = {}
    for spell in RULES:
        def run(I, spell=spell):
            return rule_of(spell)
        for st, v, tr, asm in I.explore(run, 8):
            if st == "ok" and isinstance(v, Agg) and v.v == 0:
                rules[spell] = v.f[0]
            elif st in ("ok", "panic"):
                rep.obs.append(Ob("spelling " + spell, "violated", "the rule is not accepted: %s %r" % (st, v), A))
            else:
                rep.undecided("spelling " + spell, "%s %s" % (st, v))
        if spell in rules:
            rep.add("spelling " + spell, True)

    def other(v):
        return None if isinstance(v, Agg) and v.v == 1 else "an unknown rule is accepted as %r" % (v,)
    scenario(rep, W, "spelling of no rule", lambda I: rule_of(Str([Sym("rule")])), other, A, refine=False)
    for x in ("", "Lowercase", "lower", "camel", "snake_Case", "kebab_case", "SCREAMING_KEBAB_CASE", "none", "None", "screaming_snake_case", "lowerCase", "camelCase ", " camelCase", "pascalCase", "CAMELCASE"):
        scenario(rep, W, "spelling %r" % x, lambda I, x=x: rule_of(x), other, A, refine=False)

    extra = [list(w) for w in cx.derive_words() if w.isidentifier() and set(w) != {"_"} and len(w) < 30]
    extra += [list(w) for w in ("type", "id", "user_id", "Id", "URL", "url", "_id", "__typename", "Self", "String", "Option")]
    ws = [sym(w) for w in words(cx.thorough)] + extra
    for what in ("variant", "field"):
        fn = conv[(rt, what)][0]
        want = variant if what == "variant" else field
        for spell, rv in rules.items():
            for w0 in ws:
                key = "%s %s of %s" % (spell, what, show(w0))
                todo, seen, bad, und, n = [w0], {tuple(w0)}, None, None, 0
                while todo and not bad:
                    w = todo.pop()
                    if not defined(what, spell, w):
                        continue
                    for st, v, tr, asm in I.explore(lambda I: W.term(I.call(fn, [rv, Str(w)])), 16):
                        n += 1
                        if st == "ok":
                            got, exp = norm(v), norm(Str(want(spell, w)))
                            if got is Top:
                                und = "⊤"
                            elif got != exp:
                                bad = "%s becomes %s, serde writes %s" % (show(w), got, exp)
                        elif st == "panic":
                            bad = "%s panics: %s" % (show(w), v)
                        else:
                            und = "%s %s" % (st, v)
                        if len(seen) < 24:
                            for s in refinements(asm, w0):
                                w2 = subst(w0, s)
                                if tuple(w2) not in seen:
                                    seen.add(tuple(w2))
                                    todo.append(w2)
                rep.paths += n
                if bad:
                    rep.obs.append(Ob(key, "violated", bad, A, n))
                elif und:
                    rep.undecided(key, und)
                else:
                    rep.obs.append(Ob(key, "holds", "", A, n))
    rep.visited |= {("opg_derive", x) for x in I.visited}
