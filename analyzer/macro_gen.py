"""Witness programs for describe_api! and the documents they must denote.

Every clause kind is written once alone, once before and once after every other kind of the same block, and
several at a time.  Expression positions hold opaque function parameters, literal positions distinct literals."""
import itertools, copy, random
from world import E, M, Any
from natives import HTTP_REASON


class OneOfTerms:
    """any of the given terms is right"""
    def __init__(self, *ts):
        self.ts = ts


def single(td, nullable=False, description=None):
    return {"description": description, "data": E("Single", {"nullable": nullable, "type_description": td})}


def inline(td, **kw):
    return E("Inline", single(td, **kw))


def simple(fmt=None, ex=None):
    return {"format": fmt, "example": ex}


STRING = E("String", {"variants": None, "data": simple()})


STRINGS = ["%s%d", "%s%d", "X-%s-ID%d", " %s %d  ", "/%s/%d/", "%s:\n%d\t\"q\"\\", "%sÉß%d", "{{%s}}%d", "%s.%d#/components/schemas/", "%sid%dId"]
ODD_LITS = ["", " ", "a", "ab", "abc", "A", "a/b", "/", "{a}", "id", "OK", "Not Found", "\n"]
ODD_IDS = ["a", "ab", "abc", "A", "id", "Id", "iD", "b", "W0", "w7"]
IDENTS = ["%s%d", "%s%d", "%sID%d", "_%s_%d", "%s_Id_%d_", "%sHTTPServer%d", "X%s%d", "%sé%d"]


def q(s):
    """the Rust literal"""
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


class Gen:
    """one witness function"""

    def __init__(self, name):
        self.name = name
        self.params = []          # (name, rust type, kind)
        self.n = 0
        self.given = self.names = None
        self.rng = None           # sampled descriptions: texts and names recur, except where a key has to be distinct
        self.pool, self.ids, self.depth = [], [], 0

    def pick(self, stem, shapes, odd, pool, avoid):
        while True:
            r = self.rng.random()
            if r < 0.4 and pool:
                x = self.rng.choice(pool)
            elif r < 0.6:
                x = self.rng.choice(odd)
            else:
                self.n += 1
                x = self.rng.choice(shapes) % (stem, self.n)
            if x not in avoid:
                pool.append(x)
                return x

    def lit(self, stem="lit", avoid=()):
        """a distinct string, in the shapes strings come in"""
        if self.rng:
            return self.pick(stem, STRINGS, ODD_LITS, self.pool, avoid)
        self.n += 1
        if self.given is not None:
            self.given[1] += 1
            return self.given[0] if self.given[1] == 1 and self.given[0] != "" else "%s%s" % (self.given[0], " " * (self.given[1] - 1) + str(self.given[1]))
        return STRINGS[self.n % len(STRINGS)] % (stem, self.n)

    def ident(self, stem="id", avoid=()):
        """a distinct identifier, in the shapes identifiers come in"""
        if self.rng:
            return self.pick(stem, IDENTS, ODD_IDS, self.ids, avoid)
        self.n += 1
        if self.names is not None:
            self.names[1] += 1
            return self.names[0] if self.names[1] == 1 else "%s_%d" % (self.names[0], self.names[1])
        return IDENTS[self.n % len(IDENTS)] % (stem, self.n)

    def flag(self):
        """opaque bool parameter"""
        n = "b%d" % len(self.params)
        self.params.append((n, "bool", "bool"))
        return n, ("B", n)

    def s(self, fresh=False):
        """opaque &str parameter"""
        if self.rng and not fresh and self.rng.random() < 0.4:
            old = [n for n, t, k in self.params if k == "str"]
            if old:
                n = self.rng.choice(old)
                return n, ("S", n)
        n = "s%d" % len(self.params)
        self.params.append((n, "&str", "str"))
        return n, ("S", n)

    # ---- types: (text, reference term, names registered)
    def ty(self, i):
        if self.rng:
            i = self.rng.randrange(1000)
        k = i % 5
        if k == 0:
            return "crate::W%d" % (i % 4), ("LINK", "W%d" % (i % 4)), ["W%d" % (i % 4)]
        if k == 1:
            return "String", inline(STRING), []
        if k == 2:
            return "std::vec::Vec<crate::W%d>" % (i % 4), inline(E("Array", {"items": ("LINK", "W%d" % (i % 4))})), ["W%d" % (i % 4)]
        if k == 3:
            return "crate::inner::W%d" % (4 + i % 4), ("LINK", "W%d" % (4 + i % 4)), ["W%d" % (4 + i % 4)]
        return "u32", inline(E("Integer", simple("uint32"))), []


def new_op():
    return {"tags": [], "summary": None, "operation_id": None, "description": None, "deprecated": False, "security": [],
            "request_body": None, "responses": {}, "parameters": {}, "callbacks": {}}


def new_path():
    return {"summary": None, "description": None, "operations": {}, "parameters": {}}


def new_doc():
    return {"openapi": E("OpenApiVersion", "3.0.3"), "info": {"title": "", "description": None, "version": ""}, "tags": {}, "servers": [], "paths": [],
            "components": {"schemas": {}, "security_schemes": {}}}


def reg(doc, names):
    for n in names:
        doc["components"]["schemas"][n] = True


# ---- parameters
def p_header(g, doc, into, v):
    if v == 0:
        nm = g.lit("x-h", into)
        into[nm] = param("Header", True, ref=inline(STRING))
        return '(header %s)' % q(nm)
    if v == 1:
        nm, t = g.s(True)
        into[t] = param("Header", True, ref=inline(STRING))
        return "(header %s)" % nm
    nm = g.lit("x-h", into)
    p = param("Header", True, ref=inline(STRING))
    txt = '(header %s): { %s }' % (q(nm), param_props(g, doc, p, v - 2))
    into[nm] = p
    return txt


def p_query(g, doc, into, v):
    nm = g.ident("q", into)
    ty, ref, names = g.ty(g.n)
    reg(doc, names)
    p = param("Query", False, ref=ref)
    into[nm] = p
    if v == 0:
        return "(query %s: %s)" % (nm, ty)
    return "(query %s: %s): { %s }" % (nm, ty, param_props(g, doc, p, v - 1))


def param(where, required, ref):
    return {"description": None, "parameter_in": E(where), "required": required, "deprecated": False, "schema": ref}


PROP_SETS = [["description"], ["required-t"], ["required-f"], ["deprecated-t"], ["deprecated-f"], ["schema"],
             ["description", "deprecated-t"], ["deprecated-t", "required-f", "schema", "description"], ["schema", "description", "required-t", "deprecated-f"],
             ["required-f", "deprecated-t"], [], ["required-b", "deprecated-b"]]


def param_props(g, doc, p, v):
    out = []
    for k in PROP_SETS[v % len(PROP_SETS)]:
        if k == "description":
            n, t = g.s()
            p["description"] = t
            out.append("description: " + n)
        elif k == "schema":
            g.n += 1
            ty, ref, names = g.ty(g.n)
            reg(doc, names)
            p["schema"] = ref
            out.append("schema: " + ty)
        else:
            f, b = k.split("-")
            txt, p[f] = g.flag() if b == "b" else ("true", True) if b == "t" else ("false", False)
            out.append("%s: %s" % (f, txt))
    return ", ".join(out)


def parameters(g, doc, into, v):
    """a parameters block"""
    out = []
    if v == 0:
        out.append(p_header(g, doc, into, 0))
    elif v == 1:
        out.append(p_query(g, doc, into, 0))
    elif v == 2:
        out += [p_header(g, doc, into, 1), p_query(g, doc, into, 1), p_header(g, doc, into, 2 + 7), p_query(g, doc, into, 1 + 8)]
    elif v == 3:
        out += [p_query(g, doc, into, 1 + 3), p_header(g, doc, into, 0)]
    elif v == 4:
        out += [p_header(g, doc, into, 2 + i) for i in range(len(PROP_SETS))]
    elif v == 5:
        out += [p_query(g, doc, into, 1 + i) for i in range(len(PROP_SETS))]
    elif v == 6:
        out += [p_query(g, doc, into, 0), p_query(g, doc, into, 0), p_header(g, doc, into, 2)]
    return "parameters: { %s }" % ", ".join(out)


# ---- operations
REASON = {100: "Continue", 200: "OK", 201: "Created", 204: "No Content", 301: "Moved Permanently", 400: "Bad Request", 403: "Forbidden", 404: "Not Found",
          418: "I'm a teapot", 500: "Internal Server Error", 503: "Service Unavailable"}


def response(g, doc, op, v):
    codes = [200, 201, 404, 500, 204, 400, 299, 99, 418, 503]
    code = [c for c in codes if c not in op["responses"]][v % 4 if len(op["responses"]) < 5 else 0]
    if g.rng:
        code = g.rng.choice([c for c in codes + [301, 403, 599, 600] if c not in op["responses"]])
    desc = REASON.get(code, "")
    dt = ""
    if v % 2:
        desc = g.lit("response ")
        dt = '(%s)' % q(desc)
    k = (v // 2) % 4
    if k == 0:
        ref, txt = None, "None"
    elif k == 1:
        g.n += 1
        ty, ref, names = g.ty(g.n)
        reg(doc, names)
        txt = ty
    elif k == 2:
        ref = inline(E("String", {"variants": None, "data": simple("null")}), nullable=True, description=Any)
        txt = "()"
    else:
        ref, txt = E("Any"), "{ Some(opg::models::ModelReference::Any) }"
    op["responses"][code] = {"description": desc, "schema": ref}
    return "%d%s: %s" % (code, dt, txt)


def body(g, doc, op, v):
    g.n += 1
    ty, ref, names = g.ty(g.n)
    reg(doc, names)
    b = {"description": OneOfTerms(None, ""), "required": True, "schema": ref}
    op["request_body"] = b
    if v == 0:
        return "body: " + ty
    parts = {"schema": "schema: " + ty}
    orders = [["schema"], ["schema", "description"], ["description", "schema", "required-t"], ["required-f", "schema"], ["schema", "required-f", "description"], ["schema", "required-t"],
              ["required-f", "description", "schema"]]
    out = []
    for k in orders[(v - 1) % len(orders)]:
        if k == "schema":
            out.append(parts["schema"])
        elif k == "description":
            d = g.lit("body ")
            b["description"] = d
            out.append('description: %s' % q(d))
        else:
            b["required"] = k.endswith("t")
            out.append("required: %s" % ("true" if k.endswith("t") else "false"))
    return "body: { %s }" % ", ".join(out)


def sec_ident(g, doc, fixed=None, avoid=()):
    """a security scheme held in a parameter"""
    old = [n for n, t, k in g.params if k == "key" and n not in avoid]
    if g.rng and old and g.rng.random() < 0.5:
        return g.rng.choice(old)
    n = fixed or "sec%d" % len(g.params)
    g.params.append((n, "opg::models::ApiKeySecurityScheme", "key"))
    doc["components"]["security_schemes"].setdefault(n, E("ApiKey", {"parameter_in": E("Query"), "name": ("S", n + ".name"), "description": None}))
    return n


def security(g, doc, op, v):
    def roles(k):
        rs = [g.lit("role:") for _ in range(k)]
        return rs, ("[%s]" % ", ".join(q(r) for r in rs))
    if v == 0:
        n = g.lit("scheme")
        op["security"].append({n: []})
        return 'security: { %s }' % q(n)
    if v == 1:
        n = sec_ident(g, doc)
        op["security"].append({n: []})
        return "security: { %s }" % n
    if v == 2:
        a, b = g.lit("scheme"), sec_ident(g, doc)
        r, t = roles(2)
        op["security"].append({a: r, b: []})
        return 'security: { %s%s && %s }' % (q(a), t, b)
    if v == 3:
        a, b = g.lit("scheme"), sec_ident(g, doc)
        r, t = roles(1)
        c = g.lit("scheme", (b,))
        op["security"].append({a: []})
        op["security"].append({b: r, c: []})
        return 'security: { %s, %s%s && %s }' % (q(a), b, t, q(c))
    if v == 4:
        a, b, c = [g.lit("scheme") for _ in range(3)]
        op["security"] += [{a: []}, {b: []}, {c: []}]
        return 'security: { %s, %s, %s, }' % (q(a), q(b), q(c))
    return "security: { }"


def callbacks(g, doc, op, v, depth=0):
    out = []

    def one(name, text, n):
        ps = []
        texts = []
        for i in range(n):
            pi = new_path()
            seg, els = segments(g, doc, pi, sampled_shape(g) if g.rng else g.n + i)
            t = sampled_item(g, doc, pi) if g.rng else path_clauses(g, doc, pi, [("op", "POST" if i % 2 == 0 else "GET", [("response", (g.n + i) % 8), ("summary", 0)])] + ([("parameters", 1)] if i else []))
            ps.append((els, pi))
            texts.append("(%s): { %s }" % (seg, t))
        op["callbacks"][name] = {"paths": ps}
        return "%s: { %s }" % (text, ", ".join(texts))
    if v in (0, 2, 4):
        n = g.ident("cb", op["callbacks"])
        out.append(one(n, n, 1))
    if v in (1, 2, 3):
        n = g.lit("cb-", op["callbacks"])
        out.append(one(n, q(n), 1))
    if v in (3, 4):
        n = g.lit("cb-", op["callbacks"])
        out.append(one(n, q(n), 2))
        n = g.ident("cb", op["callbacks"])
        out.append(one(n, n, 2))
    if v == 5:
        n = g.lit("cb-", op["callbacks"])
        out.append(one(n, q(n), 0))
        n = g.ident("cb", op["callbacks"])
        out.append(one(n, n, 0))
    return "callbacks: { %s }" % ", ".join(out)


def op_clause(g, doc, op, k, v):
    if k in ("summary", "description", "operationId"):
        f = {"operationId": "operation_id"}.get(k, k)
        if v == 0:
            n, t = g.s()
            op[f] = t
            return "%s: %s" % (k, n)
        l = g.lit(k + " ")
        op[f] = l
        return '%s: %s' % (k, q(l))
    if k == "deprecated":
        txt, op["deprecated"] = g.flag() if v == 2 else ("true", True) if v else ("false", False)
        return "deprecated: " + txt
    if k == "tags":
        ts = [g.ident("tag") for _ in range([1, 3, 0][v])]
        op["tags"] += ts
        return "tags: {%s}" % ", ".join(ts)
    if k == "parameters":
        return parameters(g, doc, op["parameters"], v)
    if k == "callbacks":
        return callbacks(g, doc, op, v)
    if k == "security":
        return security(g, doc, op, v)
    if k == "body":
        return body(g, doc, op, v)
    if k == "response":
        return response(g, doc, op, v)
    if k == "code":
        op["responses"][v] = {"description": HTTP_REASON.get(v, ""), "schema": None}
        return "%d: None" % v
    if k == "many":
        return "parameters: { %s }" % ", ".join((p_header if i % 3 else p_query)(g, doc, op["parameters"], i % 4) for i in range(v))
    raise KeyError(k)


OP_KINDS = [("summary", 2), ("operationId", 2), ("description", 2), ("deprecated", 3), ("tags", 3), ("parameters", 7), ("callbacks", 6), ("security", 6), ("body", 8), ("response", 8)]


def operation(g, doc, clauses, trailing=False):
    op = new_op()
    t = ", ".join(op_clause(g, doc, op, k, v) for k, v in clauses)
    return op, t + ("," if trailing and t else "")


# ---- paths
TYPES = ["UserID", "X", "lower", "snake_case", "HTTPServer2", "_Under", "TTail_", "Model", "string", "iD", "IdOfId", "Aé"]
PLACE = {"crate::PetId": ("petId", "PetId"), "crate::inner::W7": ("w7", "W7"), "crate::inner::ABC": ("aBC", "ABC")}
WORDS = []                        # what the library could single out by name, see set_words


def set_words(ws):
    """strings of the library's own source; those that are identifiers also name types"""
    del WORDS[:]
    WORDS.extend(ws)
    for n in list(PLACE)[3:]:
        del PLACE[n]
    for n in TYPES + [w for w in ws if ident_ok(w) and w not in TYPES]:
        PLACE["crate::words::" + n] = (n[:1].lower() + n[1:] if n[:1].isascii() else n, n)


KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen".split())


def ident_ok(w):
    return w.isascii() and w.isidentifier() and w not in KEYWORDS and w.strip("_") != ""


def segments(g, doc, pi, v):
    """path segment list: text, element terms; placeholders declare parameters"""
    shapes = ["l", "l,n", "l,p0,l", "n,l", "p1", "l,l,n,p2", "n,p0,n", "p0,p1,l", "n", "l,l,l"]
    segs, els = [], []
    for s in (v if isinstance(v, str) else shapes[v % len(shapes)]).split(","):
        if s == "l":
            x = g.lit("seg")
            segs.append(q(x))
            els.append(E("Path", x))
        elif s == "n":
            nm = g.ident("id", pi["parameters"])
            ty, ref, names = g.ty(g.n)
            reg(doc, names)
            segs.append("{%s: %s}" % (nm, ty))
            els.append(E("Parameter", nm))
            pi["parameters"][nm] = param("Path", True, ref)
        else:
            ty = list(PLACE)[int(s[1:])]
            nm, short = PLACE[ty]
            if nm in pi["parameters"]:
                segs.append('"-"')
                els.append(E("Path", "-"))
                continue
            reg(doc, [short])
            segs.append(ty)
            els.append(E("Parameter", nm))
            pi["parameters"][nm] = param("Path", True, ("LINK", short))
    return " / ".join(segs), E("Path", els)


def path_clauses(g, doc, pi, clauses):
    out = []
    for c in clauses:
        if c[0] in ("summary", "description"):
            l = g.lit(c[0] + " ")
            pi[c[0]] = l
            out.append('%s: %s' % (c[0], q(l)))
        elif c[0] == "parameters":
            out.append(parameters(g, doc, pi["parameters"], c[1]))
        elif c[0] == "op":
            op, t = operation(g, doc, c[2], trailing=len(c) > 3)
            pi["operations"][c[1]] = op
            out.append("%s: { %s }" % (c[1], t))
    return ", ".join(out)


METHODS = ["GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE"]


def paths(g, doc, items):
    """items: [(segment shape, path clauses)]"""
    out = []
    for v, cl in items:
        pi = new_path()
        seg, els = segments(g, doc, pi, v)
        t = path_clauses(g, doc, pi, cl)
        doc["paths"].append((els, pi))
        out.append("(%s): { %s }" % (seg, t))
    return "paths: { %s }" % ", ".join(out)


# ---- top level blocks
def info(g, doc, order):
    out = []
    for k in order:
        n, t = g.s()
        doc["info"][k] = t
        out.append("%s: %s" % (k, n))
    return "info: { %s }" % ", ".join(out)


def tags(g, doc, v):
    out = []
    for d in [[0], [1], [0, 1, 0], [1, 1]][v]:
        n = g.ident("tag", doc["tags"])
        if d:
            e, t = g.s()
            doc["tags"][n] = {"description": t}
            out.append("%s(%s)" % (n, e))
        else:
            doc["tags"][n] = {"description": None}
            out.append(n)
    return "tags: {%s}" % ", ".join(out)


def servers(g, doc, v):
    out = []
    for k in ["l", "ld", "s", "sd", "l,ld,s,sd,ls"][v].split(","):
        if k[0] == "l":
            x = g.lit("http://u")
            t, txt = x, q(x)
        else:
            txt, t = g.s()
        d = None
        if k[1:] == "d":
            d = g.lit("server ")
            txt += '(%s)' % q(d)
        elif k[1:] == "s":
            n, d = g.s()
            txt += "(%s)" % n
        doc["servers"].append({"url": t, "description": d})
        out.append(txt)
    return "servers: { %s }" % ", ".join(out)


HTTP = [("Basic", []), ("Basic", ["description"]), ("Bearer", []), ("Bearer", ["bearer_format"]), ("Bearer", ["description"]), ("Bearer", ["bearer_format", "description"]),
        ("Bearer", ["description", "bearer_format"])]
KEY = [["name"], ["name", "parameter_in"], ["parameter_in", "name", "description"], ["description", "name"], ["name", "description", "parameter_in"]]
INS = ["Query", "Header", "Cookie"]


def sec_http(g, doc, v, first):
    kind, props = HTTP[v % len(HTTP)]
    n = g.lit("http", doc["components"]["security_schemes"])
    d = {"description": None}
    if kind == "Bearer":
        d["format"] = None
    out = []
    for p in props:
        e, t = g.s()
        d["format" if p == "bearer_format" else p] = t
        out.append("%s: %s" % (p, e))
    out.insert(0 if first else len(out), "scheme: " + kind)
    doc["components"]["security_schemes"][n] = E("Http", E(kind, d))
    return '(http %s): { %s }' % (q(n), ", ".join(out))


def sec_key(g, doc, v):
    n = g.lit("key", doc["components"]["security_schemes"])
    where = "Header"
    d = {"description": None}
    out = []
    for p in KEY[v % len(KEY)]:
        if p == "parameter_in":
            where = INS[v % 3]
            out.append("parameter_in: " + where)
        else:
            e, t = g.s()
            d[p] = t
            out.append("%s: %s" % (p, e))
    d["parameter_in"] = E(where)
    doc["components"]["security_schemes"][n] = E("ApiKey", d)
    return '(apiKey %s): { %s }' % (q(n), ", ".join(out))


def sec_named(g, doc):
    n = "scheme%d" % len(g.params)
    g.params.append((n, "opg::models::SecurityScheme", "scheme"))
    doc["components"]["security_schemes"][n] = E("ApiKey", {"parameter_in": E("Query"), "name": ("S", n + ".name"), "description": None})
    return n


def security_schemes(g, doc, items):
    out = []
    for it in items:
        if it[0] == "http":
            out.append(sec_http(g, doc, it[1], it[2]))
        elif it[0] == "key":
            out.append(sec_key(g, doc, it[1]))
        else:
            out.append(sec_named(g, doc))
    return "security_schemes: { %s }" % ", ".join(out)


# ---- whole descriptions drawn at random (fixed seeds)
def sampled_shape(g):
    return ",".join(g.rng.choice(["l", "l", "l", "n", "n", "p%d" % g.rng.randrange(len(PLACE))]) for _ in range(g.rng.choice((1, 1, 2, 3, 4))))


def sampled_op(g):
    r = g.rng
    cl = []
    for k, n in OP_KINDS:
        if k == "response":
            cl += [(k, r.randrange(n)) for _ in range(r.choice((0, 1, 2, 3)))]
        elif r.random() < 0.4 and not (k == "callbacks" and g.depth > 1):
            v = r.randrange(n)
            cl.append((k, 3 if k == "parameters" and v in (4, 5) else v))
            if k in ("tags", "parameters", "security") and r.random() < 0.2:
                cl.append((k, r.randrange(3)))
    r.shuffle(cl)
    return cl


def sampled_clauses(g):
    r = g.rng
    cl = [(k,) for k in ("summary", "description") if r.random() < 0.4]
    cl += [("parameters", r.choice((0, 1, 2, 3, 6))) for _ in range(r.choice((0, 0, 1, 1, 2)))]
    cl += [("op", m, sampled_op(g)) + ((1,) if r.random() < 0.2 else ()) for m in r.sample(METHODS, r.choice((0, 1, 1, 2, 2, 3) if g.depth == 0 else (0, 1, 1, 2)))]
    r.shuffle(cl)
    return cl


def sampled_item(g, doc, pi):
    cl = sampled_clauses(g)
    g.depth += 1
    t = path_clauses(g, doc, pi, cl)
    g.depth -= 1
    return t


def sampled_path(g, doc):
    pi = new_path()
    seg, els = segments(g, doc, pi, sampled_shape(g))
    t = sampled_item(g, doc, pi)
    doc["paths"].append((els, pi))
    return "(%s): { %s }" % (seg, t)


def sampled_blocks(r):
    bs = []
    if r.random() < 0.5:
        bs.append(lambda g, d: info(g, d, r.sample(["title", "version", "description"], r.randrange(4))))
    if r.random() < 0.5:
        bs.append(lambda g, d: tags(g, d, r.randrange(4)))
    if r.random() < 0.5:
        bs.append(lambda g, d: servers(g, d, r.randrange(5)))
    if r.random() < 0.5:
        bs.append(lambda g, d: security_schemes(g, d, [r.choice([("http", r.randrange(7), r.random() < 0.5), ("key", r.randrange(5)), ("named",)]) for _ in range(r.randrange(4))]))
    if r.random() < 0.95 or not bs:
        bs.append(lambda g, d: "paths: { %s }" % ", ".join(sampled_path(g, d) for _ in range(r.choice((0, 1, 1, 2, 2, 3)))))
    r.shuffle(bs)
    return bs


def build(thorough=False):
    """[(name, function text, params, document, focus)]"""
    out = []

    def emit(name, blocks, focus, trailing=False, given=None, names=None, rng=None):
        g = Gen(name)
        g.rng = rng
        g.given = None if given is None else [given, 0]
        g.names = None if names is None else [names, 0]
        doc = new_doc()
        ts = [b(g, doc) for b in blocks]
        text = "pub fn %s(%s) -> opg::models::Opg {\n  opg::describe_api! {\n    %s%s\n  }\n}\n" % (
            name, ", ".join("%s: %s" % (n, t) for n, t, _ in g.params), ",\n    ".join(ts), "," if trailing else "")
        out.append((name, text, g.params, doc, focus))

    one_op = lambda cls, v=0, m="GET": (lambda g, doc: paths(g, doc, [(v, [("op", m, cls)])]))
    # info: every order of every subset
    i = 0
    for r in (1, 2, 3):
        for o in itertools.permutations(["title", "version", "description"], r):
            emit("info_%d" % i, [lambda g, d, o=o: info(g, d, o)], "info")
            i += 1
    for v in range(4):
        emit("tags_%d" % v, [lambda g, d, v=v: tags(g, d, v)], "tags")
    for v in range(5):
        emit("servers_%d" % v, [lambda g, d, v=v: servers(g, d, v)], "servers")
    items = [("http", v, f) for v in range(len(HTTP)) for f in (True, False)] + [("key", v) for v in range(len(KEY))] + [("named",)]
    for n, it in enumerate(items):
        emit("sec_%d" % n, [lambda g, d, it=it: security_schemes(g, d, [it])], "security schemes")
    kinds = [("http", 1, True), ("key", 2), ("named",), ("http", 5, False)]
    for a, b in itertools.product(range(4), repeat=2):
        emit("sec2_%d%d" % (a, b), [lambda g, d, a=a, b=b: security_schemes(g, d, [kinds[a], kinds[b]])], "security schemes")
    emit("sec_all", [lambda g, d: security_schemes(g, d, items)], "security schemes")
    # blocks in every order
    blocks = {
        "info": lambda g, d: info(g, d, ["title", "description", "version"]), "tags": lambda g, d: tags(g, d, 2), "servers": lambda g, d: servers(g, d, 4),
        "security_schemes": lambda g, d: security_schemes(g, d, kinds),
        "paths": lambda g, d: paths(g, d, [(1, [("op", "GET", [("response", 3), ("security", 3)])]), (5, [("op", "POST", [("body", 3), ("response", 2)])])]),
    }
    for n, (a, b) in enumerate(itertools.permutations(blocks, 2)):
        emit("block2_%d" % n, [blocks[a], blocks[b]], "blocks %s, %s" % (a, b))
    for n, o in enumerate(itertools.permutations(blocks)):
        if thorough or n % 20 == 0:
            emit("block5_%d" % n, [blocks[x] for x in o], "blocks in order " + ",".join(o), trailing=n % 2 == 1)
    # path templates
    for v in range(10):
        emit("path_%d" % v, [lambda g, d, v=v: paths(g, d, [(v, [])])], "path template")
        emit("path_op_%d" % v, [lambda g, d, v=v: paths(g, d, [(v, [("op", METHODS[v % 8], [("response", v % 8)])])])], "path template")
    emit("path_all", [lambda g, d: paths(g, d, [(v, [("op", "GET", [("response", 2)])]) for v in range(10)])], "path templates")
    # path item clauses
    pcl = [("summary",), ("description",), ("parameters", 2), ("parameters", 6), ("op", "GET", [("response", 3), ("parameters", 3)]), ("op", "POST", [("body", 1), ("response", 1)], 1)]
    for n, (a, b) in enumerate(itertools.permutations(range(len(pcl)), 2)):
        emit("pcl_%d" % n, [lambda g, d, a=a, b=b: paths(g, d, [(3, [pcl[a], pcl[b]])])], "path item clauses")
    emit("pcl_rev", [lambda g, d: paths(g, d, [(3, list(reversed(pcl)))])], "path item clauses")
    emit("methods", [lambda g, d: paths(g, d, [(0, [("op", m, [("summary", 0), ("response", i)]) for i, m in enumerate(METHODS)])])], "methods")
    for i, m in enumerate(METHODS):
        emit("method_%d" % i, [one_op([("summary", 1)], 0, m)], "method " + m)
    # operation clauses: alone, and after/before every other kind
    for k, n in OP_KINDS:
        for v in range(n):
            emit("op_%s_%d" % (k, v), [one_op([(k, v)])], "operation clause " + k)
    for (a, na), (b, nb) in itertools.product(OP_KINDS, repeat=2):
        if a == b and a in ("summary", "operationId", "description", "deprecated", "body"):
            continue
        combos = itertools.product(range(na), range(nb)) if thorough else [((na * 5 + nb) % na, (nb * 3 + na) % nb), (na - 1, 0)]
        for va, vb in sorted(set(combos)):
            if a == b and a == "callbacks" and va == vb:
                continue
            emit("op2_%s_%d_%s_%d" % (a, va, b, vb), [one_op([(a, va), (b, vb)], v=va + vb)], "operation clauses %s, %s" % (a, b))
    for r in range(8):
        emit("op_all_%d" % r, [one_op([(k, (r * 3 + 1) % n) for k, n in (OP_KINDS[r:] + OP_KINDS[:r])] + [("response", (r + 5) % 8)])], "all operation clauses")
    for v in range(8):
        emit("resp_many_%d" % v, [one_op([("response", (v + i) % 8) for i in range(7)])], "responses")
    # every status code that has a reason of its own, and some that have none
    codes = sorted(HTTP_REASON) + [0, 99, 199, 299, 599, 600, 999, 1000, 65535]
    for n in range(0, len(codes), 8):
        emit("codes_%d" % n, [lambda g, d, n=n: paths(g, d, [(0, [("op", "GET", [("code", c) for c in codes[n:n + 8]])])])], "status codes")
    # sizes
    for n in (5, 9, 14, 20):
        emit("many_segments_%d" % n, [lambda g, d, n=n: paths(g, d, [(",".join((["l", "n", "l", "l", "n"] * 4)[:n]), [("op", "GET", [("response", 2)])])])], "many segments")
        emit("many_paths_%d" % n, [lambda g, d, n=n: paths(g, d, [(v, [("op", METHODS[v % 8], [("response", v % 8)])]) for v in range(n)])], "many paths")
        emit("many_tags_%d" % n, [lambda g, d, n=n: many_tags(g, d, n)], "many tags")
        emit("many_parameters_%d" % n, [one_op([("many", n)])], "many parameters")
    # names the library itself mentions, and names of every shape, in every place a name can stand
    for i in range(3, len(PLACE)):
        emit("place_%d" % i, [lambda g, d, i=i: paths(g, d, [("p%d" % i, []), ("l,p%d,l" % i, [("op", "GET", [("response", 2)])])])], "placeholder named after a type")
    cls = [("op", "GET", [("summary", 1), ("operationId", 1), ("description", 1), ("tags", 1), ("parameters", 6), ("callbacks", 4), ("security", 4), ("body", 2), ("response", 3)]),
           ("summary",), ("description",), ("parameters", 6)]
    for i, w in enumerate(STRING_SHAPES + WORDS + ["zq%svr" % w for w in WORDS if w.strip()] + ["%s%s" % (w, w) for w in WORDS if w.strip()]):
        id = w if ident_ok(w) else ["type", "match", "ID", "userID", "__x", "A"][i % 6]
        emit("word_%d" % i, [lambda g, d: paths(g, d, [("l,n,l,n", cls)]), lambda g, d: tags(g, d, 2), lambda g, d: servers(g, d, 4), lambda g, d: security_schemes(g, d, kinds)],
             "names %r" % w, given=w, names=id)
    for i in range(2000 if thorough else 220):
        r = random.Random("api %d" % i)
        emit("sampled_%d" % i, sampled_blocks(r), "sampled description", trailing=r.random() < 0.3, rng=r)
    return out


STRING_SHAPES = ["", "ID", "userID", "user_id", "_id", "X", "Content-Type", "a b", "/", "//", "{", "{}", "{id}", "é", "É", "None", "null", "true", "0", "-1", "\n", "\\", "\"", "'", "$", "#", "%", " lead", "trail ",
                 "a/b", "/lead", "trail/", "http://x/", "SCREAM_IT", "kebab-case", "a.b", "*", "default", "200", "application/json"]


def many_tags(g, doc, n):
    names = [g.ident("tag") for _ in range(n)]
    for x in names:
        doc["tags"][x] = {"description": None}
    return "tags: {%s}" % ", ".join(names)


HEADER = '''//! Generated witness: every clause of describe_api! in every position. Never executed.
#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]
macro_rules! leaf { ($($n:ident)*) => { $(
pub struct $n;
impl ::opg::models::OpgModel for $n {
    fn get_schema(_: &mut ::opg::models::Components) -> ::opg::models::Model { loop {} }
    fn type_name() -> Option<std::borrow::Cow<'static, str>> { loop {} }
}
)* } }
leaf!(W0 W1 W2 W3 PetId);
pub mod inner { leaf!(W4 W5 W6 W7 ABC); }
pub mod words { leaf!(%s); }
/// nothing of the library is imported here, and its names mean something else
pub mod clean {
%s
%s}
'''

SHADOW = " ".join("pub struct %s;" % n for n in
                  ["Opg", "OpenApiVersion", "Info", "Tag", "Server", "Path", "PathElement", "PathValue", "HttpMethod", "Operation", "RequestBody", "Response", "CallbackObject",
                   "OperationParameter", "ParameterIn", "Components", "OpgModel", "ContextParams", "Model", "ModelData", "ModelOneOf", "ModelAllOf", "ModelAnyOf", "ModelType",
                   "ModelTypeDescription", "ModelString", "ModelSimple", "ModelArray", "ModelObject", "ModelReference", "SecurityScheme", "HttpSecurityScheme",
                   "HttpSecuritySchemeKind", "ApiKeySecurityScheme", "ParameterNotSpecified", "FromStrangeTuple"]) + \
    " pub mod models {} pub mod macros {} pub mod http {}"


def crate_text(wit):
    return HEADER % (" ".join(PLACE[p][1] for p in list(PLACE)[3:]), SHADOW, "".join(w[1] for w in wit))
