"""Runs the analyses of one property, compares with the recorded findings, writes evidence and verdict."""
import os, sys, time, json, traceback, re, glob
import build
from build import VERIF, REPO
from engine import Report, Ob, run_big

FINDINGS = VERIF + "/KNOWN_FINDINGS.txt"

ASSUME = [
    "standard-library and serde operations below the inspected code behave as modelled in analyzer/natives.py",
    "names, descriptions and other strings are opaque atoms; code that compares them with constants is re-analysed with the atom specialised to each such constant",
    "rustc's MIR (nightly, unoptimised) of the analysed tree is the program that runs",
]


def findings():
    known, fixed = {}, []
    for l in open(FINDINGS):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m:
            known[(m[1], m[2])] = m[3].strip()
    return known


class Ctx:
    """lazily built inputs of the analyses, from the current tree"""

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.cache = {}
        self.inputs = []

    def world(self, features="const_generics", tag="wcore"):
        k = ("wcore", features)
        if k not in self.cache:
            from world import World
            try:
                d = build.dump(build.stage("wcore"), ["wcore"], features=features, tag=tag)
            except build.BuildError as e:
                # a documented type that lost its implementation is a violation, a changed signature is not
                if "OpgModel` is not satisfied" in e.log or "Serialize` is not satisfied" in e.log:
                    raise
                raise RuntimeError("the entry points of the witness crate do not type-check: " + last_errors(e.log))
            j = build.load(d["wcore"])
            W = World(j)
            self.inputs.append("wcore[%s]: %d functions of the resolved program" % (features, len(j["fns"])))
            self.cache[k] = W
        return self.cache[k]


    def generated(self, name, text, world, what):
        if name not in self.cache:
            d = build.dump(build.stage(name, {"src/lib.rs": text}, template="wgen"), [name], tag=name)
            j = build.load(d[name])
            self.inputs.append("%s (%s): %d functions of the resolved program" % (name, what, len(j["fns"])))
            self.cache[name] = world(j)
        return self.cache[name]

    def derive_dump(self):
        """MIR of the derive itself"""
        if "derive" not in self.cache:
            d = build.dump(build.stage("wempty", {"src/lib.rs": "pub use opg;\n"}, template="wgen"), ["opg_derive"], tag="opg_derive", deps=True, target=build.TARGET + "/deps")
            j = build.load(d["opg_derive"])
            self.inputs.append("opg_derive: %d functions of the resolved program" % len(j["fns"]))
            self.cache["derive"] = j
        return self.cache["derive"]

    def derive_words(self):
        """every string constant of the derive: what it could single out by name"""
        out = set()

        def strs(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k == "s" and isinstance(v, str):
                        out.add(v)
                    else:
                        strs(v)
            elif isinstance(x, list):
                for v in x:
                    strs(v)
        for f in self.derive_dump()["fns"]:
            if f["crate"] == "opg_derive":
                strs(f.get("body"))
        return sorted(w for w in out if len(w) <= 60)[:400]

    def lib_words(self):
        """every string and character of the library's source: what its macros could single out by name"""
        import lex
        out = set()
        for f in sorted(glob.glob(build.REPO + "/opg/src/**/*.rs", recursive=True)):
            out |= set(lex.literals(open(f, encoding="utf-8").read()))
        return sorted(w for w in out if 0 < len(w) <= 40 and w.isprintable())[:160]

    def derive_ints(self):
        """every small integer constant of the derive: the sizes it could single out"""
        out = set()
        j = self.derive_dump()
        size = {i for i, t in enumerate(j["types"]) if t.get("k") in ("int", "uint") and t.get("n") in ("usize", "u32", "u64", "i32")}

        def ints(x):
            if isinstance(x, dict):
                for v in x.values():
                    ints(v)
            elif isinstance(x, list):
                if len(x) == 3 and x[0] == "k" and x[1] in size and isinstance(x[2], dict):
                    out.add(x[2].get("i"))
                elif len(x) >= 5 and x[0] == "switch" and x[4] in size:
                    out.update(v[0] for v in x[2])
                elif len(x) == 5 and x[0] == "bin" and x[2][0] == x[3][0] == "k":
                    pass  # alignment arithmetic the compiler adds
                else:
                    for v in x:
                        ints(v)
        for f in j["fns"]:
            if f["crate"] == "opg_derive" and f["ti"] is None:
                ints(f.get("body"))
        return sorted(x for x in out if isinstance(x, int) and 6 <= x <= 128)[:12]

    def externs(self):
        if "ext" not in self.cache:
            self.cache["ext"] = build.externs()
        return self.cache["ext"]


from registry import CHECKS


def run_check(pid, tier, rep, cx):
    spec = CHECKS[pid]
    for fn in spec["run"]:
        try:
            fn(cx, rep)
        except build.BuildError as e:
            # the analysed program, or a program the property promises to compile, does not build
            rep.obs.append(Ob("build of %s" % e.what, "violated", last_errors(e.log)))
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            rep.undecided("analysis %s" % getattr(fn, "__name__", fn), "%s: %s" % (type(e).__name__, e))


def last_errors(log):
    ls = [l for l in log.splitlines() if l.startswith("error") or l.strip().startswith("-->")]
    return " | ".join(ls[:8]) or log[-800:]


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    rep = Report(pid)
    cx = Ctx(tier)
    box = []

    def go():
        lk = build.lock()
        run_check(pid, tier, rep, cx)
        lk.close()
    run_big(go)
    spec = CHECKS[pid]
    known = findings()
    bad, kn = [], {}
    for o in rep.violations():
        if o.fkey and (pid, o.fkey) in known:
            kn.setdefault(o.fkey, []).append(o)
        else:
            bad.append(o)
    c = rep.counts()
    nobs = len(rep.obs)
    floor = spec.get("floor", {}).get(tier, spec.get("floor", {}).get("quick", 1))
    crashed = any(o.status == "undecided" and o.key.startswith("analysis ") for o in rep.obs)
    if nobs < floor and not bad and not crashed:
        bad.append(Ob("obligation count", "violated", "%d obligations were found, at least %d were confirmed by hand: an anchor of the analysis is gone" % (nobs, floor)))
    for k, obs in kn.items():
        print("KNOWN-FINDING: property=%s %s (%d obligations)" % (pid, known[(pid, k)], len(obs)))
    outdir = os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    undec = [o for o in rep.obs if o.status == "undecided"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "explanation": spec["explain"],
            "rule": spec["rule"],
            "obligations": nobs,
            "discharged": c["holds"],
            "undecided": c["undecided"],
            "violated": len(bad),
            "known_findings": {k: len(v) for k, v in kn.items()},
            "paths": rep.paths,
            "analysed": cx.inputs + rep.notes,
            "functions_visited": len(rep.visited),
            "samples": [o.key for o in rep.obs[:: max(1, nobs // 12)]][:12],
            "undecided_samples": ["%s: %s" % (o.key, o.detail[:300]) for o in undec[:8]],
        },
        "assumptions": ASSUME + spec.get("assume", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    rp = os.path.join(outdir, "replay-%s.txt" % pid)
    if os.path.exists(rp):
        os.remove(rp)
    if bad:
        with open(rp, "w") as f:
            f.write("property %s is violated by the tree at %s\nrule: %s\nrerun: python3 %s/check.py %s\n\n" % (pid, REPO, spec["rule"], VERIF, pid))
            for o in bad[:200]:
                f.write("* obligation: %s\n  anchor: %s\n  finding: %s\n" % (o.key, o.anchor, o.detail))
        ev["coverage"]["violation_samples"] = ["%s | %s | %s" % (o.key, o.anchor, o.detail[:400]) for o in bad[:8]]
    json.dump(ev, open(os.path.join(outdir, pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d hold, %d undecided, %d known, %d violated (%.1fs)" % (pid, nobs, c["holds"], c["undecided"], sum(map(len, kn.values())), len(bad), time.time() - t0))
    for o in undec[:3]:
        print("  undecided: %s: %s" % (o.key, o.detail[:300]))
    for o in bad[:6]:
        print("  violated: %s | %s | %s" % (o.key, o.anchor, o.detail[:500]))
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
