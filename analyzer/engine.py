"""Obligations: one abstract scenario each, discharged, violated or undecided."""
from interp import *
from world import *
import os, time


class Known(str):
    """a mismatch that is exactly the one a recorded finding describes"""
    fkey = None

    def __new__(cls, fkey, text):
        x = str.__new__(cls, text)
        x.fkey = fkey
        return x


class Ob:
    __slots__ = ("key", "status", "detail", "anchor", "paths", "assumed", "fkey")

    def __init__(self, key, status, detail="", anchor="", paths=1):
        self.key, self.status, self.detail, self.anchor, self.paths = key, status, detail, anchor, paths
        self.fkey = None

    def __repr__(self):
        return "%s %s %s" % (self.status, self.key, self.detail)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.paths = 0
        self.notes = []
        self.visited = set()
        self.rules = []

    def add(self, key, ok, detail="", anchor=""):
        self.obs.append(Ob(key, "holds" if ok else "violated", detail, anchor))

    def undecided(self, key, detail):
        self.obs.append(Ob(key, "undecided", detail))

    def counts(self):
        c = {"holds": 0, "violated": 0, "undecided": 0}
        for o in self.obs:
            c[o.status] += 1
        return c

    def violations(self):
        return [o for o in self.obs if o.status == "violated"]


def atoms_of(pairs):
    """constants an opaque atom was compared with: [(atom name, constant)]"""
    out = []
    for a, b in pairs:
        for x, y in ((a, b), (b, a)):
            if len(x.p) == 1 and isinstance(x.p[0], Sym) and isinstance(x.p[0].n, str) and y.conc() is not None:
                out.append((x.p[0].n, y.conc()))
    return out


PROBES = ("", "zq", "Zq", "zq_vr", "ZqVr", "_zq", "zq1", "zq vr", "ZQ", "é")


def sensible(atom, c):
    """names of types and methods are never empty"""
    return c != "" or not atom.startswith("name:")


def scenario(rep, W, key, run, oracle, anchor="", panic_ok=False, diverge_bad=False, refine=True, maxpaths=64, distinct=(), alias=None):
    """run(I) -> value; oracle(value) -> None | mismatch text.
    Re-run with atoms specialised to every constant the analysed code compared them with, and (where alias(a, b) says
    that two atoms may be one) with the atoms it compared with each other made equal."""
    tried = set()
    todo = [{}]
    worst = None
    probed = False
    n = 0
    W.atoms = set()
    while todo or (worst is not None and refine and not probed):
        if not todo:
            # what cannot be decided for an arbitrary string may still be refuted for a particular one
            probed = True
            todo = [{a: c} for a in sorted(x for x in W.atoms if isinstance(x, str))[:12] for c in PROBES if c not in distinct and sensible(a, c)]
            if not todo:
                break
        sub = todo.pop()
        W.sub = sub
        for st, v, trace, assumed in W.I.explore(run, maxpaths):
            n += 1
            tag = key + (" [%s]" % ", ".join("%s=%r" % x for x in sub.items()) if sub else "")
            if trace:
                tag += " {%s}" % "; ".join("%s→%s" % x for x in trace)
            if st == "ok":
                try:
                    m = oracle(v)
                except Undecided as e:
                    worst = worst or Ob(tag, "undecided", str(e))
                    continue
                except Exception as e:
                    if os.environ.get("VERIF_DEBUG"):
                        raise
                    worst = worst or Ob(tag, "undecided", "result not understood: %s %s" % (type(e).__name__, e))
                    continue
                if m:
                    W.sub = {}
                    ob = Ob(key, "violated", "%s: %s" % (tag, m), anchor, n)
                    ob.fkey = getattr(m, "fkey", None)
                    rep.obs.append(ob)
                    return False
            elif st == "panic":
                if not panic_ok:
                    W.sub = {}
                    rep.obs.append(Ob(key, "violated", "%s: panics (%s)" % (tag, v), anchor, n))
                    return False
            elif st == "diverge" and diverge_bad:
                W.sub = {}
                rep.obs.append(Ob(key, "violated", "%s: does not terminate (%s)" % (tag, v), anchor, n))
                return False
            else:
                worst = worst or Ob(tag, "undecided", "%s: %s" % (st, v))
            if refine and not sub:
                for a, c in atoms_of(assumed):
                    if (a, c) not in tried and len(tried) < 40 and c not in distinct and sensible(a, c):
                        tried.add((a, c))
                        todo.append({a: c})
            if alias and not sub:
                for x, y in assumed:
                    if all(len(z.p) == 1 and isinstance(z.p[0], Sym) and isinstance(z.p[0].n, str) for z in (x, y)):
                        a, b = x.p[0].n, y.p[0].n
                        if (a, b) not in tried and len(tried) < 60 and alias(a, b):
                            tried |= {(a, b), (b, a)}
                            todo.append({a: Sym(b)})
    W.sub = {}
    rep.paths += n
    if worst is not None:
        worst.paths = n
        rep.obs.append(worst)
        return None
    rep.obs.append(Ob(key, "holds", "", anchor, n))
    return True


START = time.time()
BUDGET = 700 if os.environ.get("VERIF_TIER", "quick") == "quick" else 6 * 3600


def parallel(rep, W, items, fn, jobs=None):
    """fn(rep, part) on interleaved parts of the items, one process each; the results come back in the order of the items"""
    import pickle, tempfile
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(items) // 40))
    if jobs <= 1:
        return fn(rep, items)
    kids = []
    for k in range(jobs):
        f = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            try:
                r = Report(rep.prop)
                for it in items[k::jobs]:
                    if time.time() - START > BUDGET:
                        r.undecided("time", "not analysed within %d s: %r" % (BUDGET, it))
                        continue
                    fn(r, [it])
                pickle.dump((r.obs, r.paths, r.notes, W.I.visited), f)
                f.flush()
                os._exit(0)
            except BaseException as e:
                import traceback
                traceback.print_exc()
                os._exit(3)
        kids.append((pid, f, k))
    for pid, f, k in kids:
        st = os.waitpid(pid, 0)[1]
        if st:
            rep.undecided("analysis part %d of %d" % (k, jobs), "the analysis process ended with status %d" % st)
            continue
        f.seek(0)
        obs, paths, notes, vis = pickle.load(f)
        f.close()
        rep.obs += obs
        rep.paths += paths
        rep.notes += notes
        W.I.visited |= vis
