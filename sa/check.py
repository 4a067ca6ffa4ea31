"""Obligations, known findings, evidence and reporting shared by all checks."""
import json, os, sys, time
from . import terms as TM
from .terms import *
from .eng import Engine
from . import facts as FA

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Missing(Exception):
    """An anchor of the property is gone: the obligation cannot be discharged."""


class Ctx:
    def __init__(self, pid, level="other"):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.F = FA.load()
        TM.ADTS.clear()
        TM.ADTS.update(self.F.adts)
        self.obs = []          # (key, ok, message, where)
        self.counts = {}
        self.analysed = set()
        self.notes = []
        self.rule = ""

    # ---- anchors
    def fn(self, name=None, trait=None, self_has=None, path=None, optional=False, kr=None):
        """The unique non-closure function with this name / trait / self type / path suffix."""
        out = []
        for f in self.F.fns.values():
            if f.closure or not f.local:
                continue
            if name is not None and f.name != name:
                continue
            if trait is not None and (f.trait is None or not _tr(f.trait, trait)):
                continue
            if self_has is not None and self_has not in (f.self_ty or ""):
                continue
            if path is not None and not f.path.endswith(path):
                continue
            if kr is not None and f.kr != kr:
                continue
            out.append(f)
        if not out:
            if optional:
                return None
            raise Missing("no function %s" % (dict(name=name, trait=trait, self_ty=self_has, path=path),))
        if len(out) > 1:
            out.sort(key=lambda f: len(f.key))
        return out[0]

    def fns(self, pred):
        return [f for f in self.F.fns.values() if f.local and pred(f)]

    def engine(self, opaque=None, **kw):
        return Engine(self.F, opaque, **kw)

    def run(self, E, fn, names=None, args=None):
        """Evaluate fn as a root; its arguments are symbols called `names` whatever the source calls them."""
        if args is None and names is not None:
            args = [mk("sym", n, fn.locals[i + 1]) for i, n in enumerate(names)]
            if len(args) != fn.nargs:
                raise Missing("%s takes %d arguments, expected %s" % (fn.key, fn.nargs, names))
        r = E.run(fn, args=args)
        if E.retc is not TRUE and E.retc is not None and r is not None:
            from .q import ite, lift, only_true
            r = E.ret = ite(only_true(E.retc), r, lift("keep", lambda l: l if l is CONT else DEAD, r))     # what it gives back where it returns at all
        self.analysed |= {fn.key}
        self.analysed |= set(E.seen_fns)
        self.count("events", len(E.events))
        return r

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def callers(self, fn):
        """Bodies with a call of fn."""
        out = []
        for g in self.F.fns.values():
            if not g.derive and any(t[0] == "call" and t[1][0] == "k" and isinstance(t[1][1], dict) and t[1][1].get("fn") == fn.key for _, t, _ in g.blocks):
                out.append(g)
        return out

    # ---- obligations
    def ob(self, key, ok, msg="", where=""):
        self.obs.append((key, bool(ok), msg, where))
        return bool(ok)

    def floor(self, what, n, least):
        """Guard against a vacuous pass: the rule must have had something to look at."""
        self.counts[what] = n
        self.ob("floor:" + what, n >= least, "%s: found %d, at least %d expected" % (what, n, least))


def _tr(have, want):
    if have == want:
        return True
    h = have.split("<")[0]
    return h == want or h.endswith("::" + want)


def known():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, what = line[len("finding: "):].partition(" | ")
                kv = dict(x.split("=", 1) for x in head.split(" ", 1))
                out[(kv["property"], kv["key"])] = what
    return out


def jtrim(o):
    return o


def main(pid, fnrun, title, explanation):
    t0 = time.time()
    ctx = None
    try:
        ctx = Ctx(pid)
        try:
            fnrun(ctx)
        except Missing as e:
            ctx.ob("anchor:" + str(e)[:160], False, "anchor of the property not found: " + str(e))
        except (FA.BuildError, MemoryError):
            raise
        except Exception as e:
            import traceback
            tb = traceback.format_exc()
            print(tb[-1500:], file=sys.stderr)
            ctx.ob("shape:%s" % type(e).__name__, False, "the code has a shape the rule cannot be applied to: " + tb.strip().splitlines()[-1][:200])
    except FA.BuildError as e:
        print("cannot build facts for /repo's current tree:\n" + str(e)[-3000:], file=sys.stderr)
        return 2
    kn = known()
    bad, kf = [], []
    for key, ok, msg, where in ctx.obs:
        if not ok:
            (kf if (pid, key) in kn else bad).append((key, msg, where))
    ev = {
        "property": pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": explanation,
            "obligations": len(ctx.obs),
            "discharged": sum(1 for o in ctx.obs if o[1]),
            "functions_analysed": len(ctx.analysed),
            "functions": sorted(ctx.analysed)[:400],
            "counts": ctx.counts,
            "notes": ctx.notes,
            "known_findings": [k for k, _, _ in kf],
            "samples": [k for k, ok, _, _ in ctx.obs if ok][:60],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    if bad:
        rp = os.path.join(d, pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s: %s\nrule: %s\n\n" % (pid, title, explanation))
            for k, m, w in bad:
                f.write("- %s\n  %s\n  at %s\n" % (k, m, w))
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1)
    for k, m, w in kf:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[(pid, k)]))
    for k, m, w in bad[:20]:
        print("  %s: %s [%s]" % (k, m, w))
    print("%s: %d obligations, %d discharged, %d known findings, %d functions analysed, %.1fs" % (
        pid, len(ctx.obs), ev["coverage"]["discharged"], len(kf), len(ctx.analysed), ev["wall_s"]))
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
