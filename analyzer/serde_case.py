"""serde's rename rules, written down independently of the analysed code (serde_derive's documented behaviour)."""

RULES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]


def up(s):
    return "".join(c.upper() if "a" <= c <= "z" else c for c in s)


def low(s):
    return "".join(c.lower() if "A" <= c <= "Z" else c for c in s)


def snake_of_variant(v, isupper=str.isupper):
    out = ""
    for i, c in enumerate(v):
        if i > 0 and isupper(c):
            out += "_"
        out += low(c)
    return out


def variant(rule, v):
    if rule in (None, "PascalCase"):
        return v
    if rule == "lowercase":
        return low(v)
    if rule == "UPPERCASE":
        return up(v)
    if rule == "camelCase":
        return low(v[:1]) + v[1:]
    s = snake_of_variant(v)
    return {"snake_case": s, "SCREAMING_SNAKE_CASE": up(s), "kebab-case": s.replace("_", "-"),
            "SCREAMING-KEBAB-CASE": up(s).replace("_", "-")}[rule]


def field(rule, f):
    if rule in (None, "lowercase", "snake_case"):
        return f
    if rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
        return up(f)
    if rule == "kebab-case":
        return f.replace("_", "-")
    if rule == "SCREAMING-KEBAB-CASE":
        return up(f).replace("_", "-")
    out, cap = "", True
    for c in f:
        if c == "_":
            cap = True
        elif cap:
            out += up(c)
            cap = False
        else:
            out += c
    return out if rule == "PascalCase" else low(out[:1]) + out[1:]
