"""Turns the analysis of cases into the verdict on a property."""
import sys
import time

from . import cases, ops

# what a finding is about
WRONG = {"spec", "content", "order", "shape", "invariant", "args"}
CRASH = {"panic"}
LOOPS = {"nonterm", "recursion"}
MEMORY = {"oob", "uninit", "freed", "type", "null", "dangling", "unreachable", "local"}
CONSERVE = {"leak", "double", "uninit", "freed"}
SIZE = {"size"}
ISOLATE = {"excl", "freed", "dangling", "double"}

BROKEN = WRONG | CRASH | LOOPS | MEMORY        # an operation cannot do its job with any of these


def height_of(c):
    k = c.kw.get("start")
    return k if isinstance(k, int) else 0


def select(cs, maxh, but=()):
    out = []
    for c in cs:
        if height_of(c) > maxh.get(c.name.split(" ")[0], maxh[None]):
            continue
        if any(b in c.name for b in but):
            continue
        out.append(c)
    return out


_began = time.time()


def judge(r, cs, kinds, seconds=800, what="the operation's specification"):
    """Run the cases; findings of these kinds are violations, everything unresolved is undecided."""
    sys.setrecursionlimit(20000)
    res = cases.run_all(cs, seconds=max(20, seconds - (time.time() - _began)))
    fns, obl, outs, steps, user = set(), 0, 0, 0, 0
    done = []
    for c, x in zip(cs, res):
        fns.update(x["fns"])
        obl += x["obligations"]
        outs += x["outcomes"]
        steps += x["steps"]
        user += x["user"]
        bad = False
        for f in x["findings"]:
            if f["kind"] not in kinds:
                continue
            bad = True
            via = [t for t in f.get("trail", ()) if t not in f["site"]][:4]
            r.violation("%s at %s" % (f["msg"], f["site"]), "%s, analysing %s%s" % (f["kind"], c.name, ", called at " + ", ".join(via) if via else ""))
        if x["error"]:
            r.undecide(c.name, x["error"])
        for n in list(x["notes"])[:6]:
            r.undecide(c.name, n)
        for n in list(x["unsure"])[:6]:
            r.undecide(c.name, "not settled: " + n)
        if not bad and not x["error"]:
            r.ok(c.name, "%d outcomes, %d obligations, %d steps" % (x["outcomes"], x["obligations"], x["steps"]))
            done.append(c.name)
    a = r.analysed
    add(a, {"functions": sorted(fns), "cases": len(done), "case names": done, "outcomes compared with " + what: outs,
            "obligations inside the cases": obl, "abstract steps": steps, "calls of user code considered": user})
    return res


def add(a, new):
    for k, v in new.items():
        if isinstance(v, list):
            a[k] = sorted(set(a.get(k, [])) | set(v))
        else:
            a[k] = a.get(k, 0) + v


def variants(f, modes, **kw):
    out = []
    for m in modes:
        out += f("r" not in m, "s" in m, **kw)
    return out
