"""Runs the analysis of operations, case by case, in parallel.

A case starts from one abstract tree, runs one operation (or a short sequence
of them) through the interpreter and compares every outcome with what the
operation has to do. What it finds is tagged so that each property's check can
pick what concerns it."""
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import build, mir, models
from .interp import Engine, Budget, PathEnd, Unsupported, Issue, Confirmed
from .dom import *
from .tree import *

_prog = {}


def program(debug):
    p = _prog.get(debug)
    if p is None:
        p = _prog[debug] = mir.Program(build.dump(debug))
    return p


class Missing(Exception):
    pass


class Ctx:
    """One run of one case."""

    def __init__(self, case, unroll=0, hunted=None):
        self.case = case
        self.hunted = hunted
        self.prog = program(case.debug)
        self.findings = []
        self.obligations = 0
        self.unsure = {}
        self.outcomes = 0
        self.eng = Engine(self.prog, models, case.debug, unwind=case.unwind, unroll=unroll)
        self.eng.shared = case.shared
        self.eng.limit = case.limit
        self.eng.hunted = hunted

    def fn(self, name, args=None):
        """The body of a function, by its path and, where there are several, its type arguments."""
        pre = "crate::" + name
        for k in self.prog.bodies:
            if k.startswith(pre + "<") or k == pre:
                if args is None or k == pre + args:
                    return k
        raise Missing(name)

    def find(self, kind, msg, st, site=None, taint=None):
        real = st.copy().real()
        if real is False:
            return
        if real is None:
            # nothing shows that the numbers of this state exist
            self.unsure["undecided numbers: " + msg] = self.unsure.get("undecided numbers: " + msg, 0) + 1
            return
        self.findings.append({"kind": kind, "msg": msg, "site": site or self.case.name, "taint": st.taint if taint is None else taint,
                              "case": self.case.name, "where": describe(st)})
        if self.hunted and (kind, self.findings[-1]["site"]) in self.hunted:
            raise Confirmed()

    def ensure(self, kind, st, cond, msg):
        """The condition must hold in this state."""
        self.obligations += 1
        if cond is None:
            self.unsure[msg] = self.unsure.get(msg, 0) + 1
            return False
        if isinstance(cond, bool):
            if not cond:
                if st.feasible():
                    self.find(kind, msg, st)
                return False
            return True
        if st.prove_cond(cond):
            return True
        for s in st.copy().where(cond.neg()):
            if s.feasible():
                self.find(kind, msg, s)
                return False
        return True

    def call(self, st, key, args, panics="panic"):
        """Run a function; its normal returns: [(state, value)]. Its panics are findings."""
        out = []
        for o in self.eng.run_fn(st, key, args):
            if o.k == "ret":
                if o.st.alive():
                    self.outcomes += 1
                    out.append((o.st, o.v))
            elif o.k == "panic":
                if panics and o.st.feasible():
                    self.find(panics, "panic (%s)" % (o.v[0],), o.st, o.v[1])
        return out

    def walk(self, st, cell, want=None, size=True, what="afterwards the tree holds", alt=None, ask=False, edge=None):
        """Check a tree; compare its entries with `want` = (keys, values). alt: keys equal to the entry at a position.
        ask: say None if something is amiss instead of reporting it."""
        w = Walk(self.eng)
        w.alt = alt or {}
        w.edge = edge
        infos = []
        for s, i in w.tree(st.copy(), cell):
            if i is None:
                continue
            infos.append((s, i))
            if want is not None:
                w.same(s, i["k"], want[0], what + " the keys")
                w.same(s, i["v"], want[1], what + " the values")
            if size:
                n = w.total(i["v"])
                if not w.equal(s, n, i["size"]) and s.feasible():
                    w.fault("size", "the length says %s and the tree holds %s entries" % (s.sys.red(i["size"]), s.sys.red(n)), s)
            for c, nd in s.nodes.items():
                if not nd.freed and c not in i["seen"] and not self.held(s, c):
                    w.fault("leak", "a node was detached from the tree without being freed", s)
                    break
        if ask and (w.unsure or any(s.feasible() for kind, msg, s in w.faults)):
            return None
        self.obligations += w.obligations
        for kind, msg, s in w.faults:
            if s.feasible():
                self.find(kind, msg, s)
        for m in w.unsure:
            self.unsure[m] = self.unsure.get(m, 0) + 1
        return infos

    def held(self, st, cell):
        return cell in st.hook.get("held", ())


def describe(st):
    return {"facts": len(st.sys.cons) + len(st.sys.sub)}


class Case:
    def __init__(self, name, group, run, debug=True, shared=False, unwind=False, limit=300000, seconds=240, cost=1, unroll=0, **kw):
        self.name = name
        self.group = group          # the property the operation's own specification belongs to
        self.run = run
        self.debug, self.shared, self.unwind, self.limit = debug, shared, unwind, limit
        self.seconds = seconds
        self.cost = cost
        self.unroll = unroll        # loops run out within so many turns
        self.small = None           # (arguments, turns) of an instance that settles doubtful findings
        self.kw = kw


class Timeout(Exception):
    pass


_deadline = [None]


def budgeted(case):
    """Seconds this case may take from now on."""
    if _deadline[0] is None:
        return case.seconds
    return max(1, min(case.seconds, int(_deadline[0] - time.time())))


def run_case(case):
    import signal

    def late(*a):
        raise Timeout()
    t0 = time.time()
    r = {"name": case.name, "group": case.group, "findings": [], "notes": {}, "unsure": {}, "fns": [], "obligations": 0, "steps": 0,
         "outcomes": 0, "error": None, "user": 0, "issues": 0}
    try:
        signal.signal(signal.SIGALRM, late)
        signal.alarm(budgeted(case))
        c = once(case, case.unroll, r)
        found = c.findings
        if any(f["taint"] for f in found) and not case.unroll:
            # found after a loop's states were joined: does it show on a path with few turns as well?
            signal.alarm(budgeted(case))
            hunted = {(f["kind"], f["site"]) for f in found if f["taint"]}
            got = []
            try:
                if case.small is None:
                    once(case, 3, None, hunted, got)
                else:
                    got += instance(case).findings
            except Confirmed:
                pass
            except (Timeout, Budget):
                r["notes"]["confirmation ran out of time"] = 1
            seen = {(f["kind"], f["site"]) for f in got}
            keep = []
            for f in found:
                if not f["taint"] or (f["kind"], f["site"]) in seen:
                    keep.append(f)
                else:
                    r["notes"]["unconfirmed: %s (%s)" % (f["msg"], f["site"])] = 1
            found = keep
        r["findings"] = found
        if case.small is not None and not found and (r["notes"] or r["unsure"]):
            signal.alarm(budgeted(case))
            settle(case, r)
    except Timeout:
        r["error"] = "timeout"
    except Budget:
        r["error"] = "budget"
    except Missing as e:
        r["error"] = "no such function: %s" % e
    except Unsupported as e:
        r["error"] = "unsupported: %s" % e
    except PathEnd:
        r["error"] = "path"
    except RecursionError:
        r["error"] = "recursion"
    except Exception:
        r["error"] = "internal: " + traceback.format_exc()[-900:]
    finally:
        signal.alarm(0)
    if r["error"] and case.small is not None and not r["findings"]:
        settle(case, r)
    r["seconds"] = round(time.time() - t0, 2)
    return r


def instance(case):
    small = Case(case.name, case.group, case.run, case.debug, case.shared, case.unwind, case.limit, case.seconds, **dict(case.kw, **case.small[0]))
    return once(small, case.small[1], None)


def settle(case, r):
    """The general analysis has no answer: look for one in the instance."""
    import signal
    try:
        signal.alarm(max(60, budgeted(case)))
        r["findings"] = instance(case).findings
        r["notes"]["only an instance with small nodes was analysed to the end"] = 1
    except (Timeout, Budget, Unsupported, PathEnd, Missing):
        r["notes"]["no answer from an instance with small nodes either"] = 1
    finally:
        signal.alarm(0)


def once(case, unroll, r, hunted=None, got=None):
    c = Ctx(case, unroll, hunted)
    if hunted:
        c.eng.limit *= 4
    try:
        case.run(c, **case.kw)
    finally:
        for i in c.eng.issues:
            c.findings.append({"kind": i.kind, "msg": i.msg, "site": i.where, "taint": i.joined, "case": case.name,
                               "where": describe(i.st), "trail": i.trail[:12]})
        if got is not None:
            got += c.findings
        if r is not None:
            r["notes"] = {str(k): v for k, v in c.eng.notes.items()}
            r["unsure"] = c.unsure
            r["fns"] = sorted(f for f in c.eng.fns if c.prog.bodies[f]["local"])
            r["obligations"] = c.obligations
            r["steps"] = c.eng.steps
            r["outcomes"] = c.outcomes
            r["user"] = c.eng.user_calls
            r["findings_at_stop"] = len(c.findings)
    return c


def run_all(cases, jobs=8, seconds=None):
    _deadline[0] = time.time() + seconds if seconds else None
    for d in sorted({c.debug for c in cases}):
        program(d)
    order = sorted(cases, key=lambda c: -c.cost)
    if jobs == 1 or len(cases) == 1:
        res = [run_case(c) for c in order]
    else:
        global _cases
        _cases = order
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(jobs, len(order)), maxtasksperchild=4) as pool:
            res = list(pool.imap_unordered(_run_nth, range(len(order)), chunksize=1))
    by = {r["name"]: r for r in res}
    return [by[c.name] for c in cases]


def _run_nth(i):
    sys.setrecursionlimit(20000)
    return run_case(_cases[i])


if __name__ == "__main__":
    from . import ops, iters
    sys.setrecursionlimit(20000)
    pats = sys.argv[1:]
    cs = [c for c in ops.all_cases() + iters.all_cases() if not pats or any(p in c.name for p in pats)]
    if not pats or len(cs) > 1:
        rs = run_all(cs)
    else:
        rs = [run_case(cs[0])]
    for r in rs:
        print("%-50s %6.1fs steps %6d outs %3d obl %4d findings %d notes %d unsure %d %s" % (
            r["name"], r["seconds"], r["steps"], r["outcomes"], r["obligations"], len(r["findings"]), len(r["notes"]), len(r["unsure"]), r["error"] or ""))
        seen = {}
        for f in r["findings"]:
            k = (f["kind"], f["msg"], f["site"])
            seen[k] = seen.get(k, 0) + 1
        for k, n in seen.items():
            print("     !", n, *k)
        for k, v in r["notes"].items():
            print("     ?", v, k)
        for k, v in r["unsure"].items():
            print("     ~", v, k)
    print("total cpu", sum(r["seconds"] for r in rs))
