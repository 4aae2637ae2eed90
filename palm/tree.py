"""Initial trees, and what a tree or node contains."""
from .lin import L
from .dom import *
from . import models
from .models import ret, some, NONE, unwrap_handle, find_arr

BIG = 1 << 40
WIDEST = 1 << 31      # of a node


def fresh_state(two=False):
    st = State()
    for s in (BC, LC) + ((L.sym("BC2"), L.sym("LC2")) if two else ()):
        st.ge(s - 4)
        st.ge(L.of(WIDEST) - s)
    return st


class Tree:
    """A tree the analysis starts from."""

    def __init__(self, cell, N, root, height, what):
        self.cell, self.N, self.root, self.height, self.what = cell, N, root, height, what


def known(eng, st, t):
    """The analysis keeps an eye on this tree."""
    eng.__dict__.setdefault("trees", []).append(t.cell)
    return st, t


def tree_type(eng):
    r = eng.__dict__.get("_tt")
    if r is None:
        for i, t in enumerate(eng.prog.types):
            if t["k"] == "adt" and t["path"] == "crate::PalmTree" and t["s"].endswith("<K, V, C>"):
                r = i
        eng._tt = r
    return r


def tree_fields(eng):
    """Field numbers of the tree's struct: (size, root)."""
    r = eng.__dict__.get("_tf")
    if r is None:
        r = {"n": 0}
        fs = eng.ty(tree_type(eng))["variants"][0]["fields"]
        r["n"] = len(fs)
        for i, (_, ft) in enumerate(fs):
            f = eng.ty(ft)
            if f["s"] == "usize":
                k = "size"
            elif "Option" in f["s"]:
                k = "root"
                r["ptr_t"] = f["args"][0]
            elif f["k"] == "adt" and f["phantom"]:
                continue
            else:
                raise Unsupported("tree field of type " + f["s"])
            if k in r:
                raise Unsupported("two tree fields of one kind")
            r[k] = i
        eng._tf = r
    return r


def tree_agg(eng, size, root):
    tf = tree_fields(eng)
    f = [UNIT] * tf["n"]
    f[tf["size"]] = size
    f[tf["root"]] = root
    return Agg(0, tuple(f))


def root_ptr(eng, cell):
    return models.wrap_node(eng, tree_fields(eng)["ptr_t"], Handle(cell))


def pin(st, *syms):
    """Symbols the caller goes on speaking of."""
    st.hook = dict(st.hook)
    st.hook["pin"] = st.hook.get("pin", ()) + syms


def wide(eng, h, st=None):
    """A tree of the given height (1: the root's children are leaves)."""
    st = st or fresh_state()
    N, n = fresh("N"), fresh("w")
    st.ge(L.of(BIG) - N)
    pin(st, N)
    oid = st.new_origin(h, ZERO, N, n)
    cell = models.cell_of_origin(eng, st, oid, not eng.shared)
    t = st.new_cell(tree_agg(eng, N, some(root_ptr(eng, cell))))
    return known(eng, st, Tree(t, N, oid, h, "a tree of height %d" % h))


def announced(eng, st, t, k, levels):
    """The tree once the branches down its right edge, this many levels of them, have been told that `k`, which is higher than
    every key, is going to be added."""
    oid = t.root
    nf = models.node_fields(eng, models.node_types(eng)[models.BRANCH])
    for i in range(levels):
        o = st.orgs[oid]
        st.ge(o.n - 1)
        cell = models.cell_of_origin(eng, st, oid, not eng.shared)
        v = list(st.cells[cell].f)
        v[nf["keys"]] = models.array_value(eng, nf["keys_t"], lambda cap, e, ety: Arr(((o.n - 1, "S", oid, ZERO), (ONE, "1", k, None), (cap - o.n, "U", None, None)), cap, e, ety))
        st.cells[cell] = Agg(0, tuple(v))
        if i + 1 < levels:
            kids = st.kid(oid, o.n - 1)
            if len(kids) != 1:
                raise Unsupported("the last child")
            st, oid = kids[0]
    return st


def hollow(eng, hb, st=None):
    """A tree whose last entry was removed: an empty root remains."""
    st = st or fresh_state()
    t = models.node_types(eng)[models.BRANCH]
    nf = models.node_fields(eng, t)
    f = [UNIT] * nf["n"]
    mk = lambda cap, e, ety: Arr(((cap, "U", None, None),), cap, e, ety)
    for k in ("keys", "kids"):
        f[nf[k]] = models.array_value(eng, nf[k + "_t"], mk)
    f[nf["len"]] = ZERO
    f[nf["hb"]] = TRUE if hb else FALSE
    v = Agg(0, tuple(f))
    cell = st.new_cell(v)
    st.nodes[cell] = NodeInfo(None, 1, not eng.shared)
    tc = st.new_cell(tree_agg(eng, ZERO, some(root_ptr(eng, cell))))
    return known(eng, st, Tree(tc, ZERO, None, 1, "an emptied tree whose root is a branch of %s" % ("branches" if hb else "leaves")))


def empty(eng, st=None):
    st = st or fresh_state()
    tc = st.new_cell(tree_agg(eng, ZERO, NONE))
    return known(eng, st, Tree(tc, ZERO, None, 0, "a new tree"))


def starts(eng, heights=(1, 2, 3)):
    out = [empty(eng), hollow(eng, False), hollow(eng, True)]
    for h in heights:
        out.append(wide(eng, h))
    return out


# ---------------------------------------------------------------- contents

class Fault(Exception):
    """What is wrong with a tree the walk came across."""

    def __init__(self, kind, msg, st):
        super().__init__(msg)
        self.kind, self.msg, self.st = kind, msg, st


class Walk:
    """Reads the tree a cell holds: its entries in order, its shape, and what is wrong with it."""

    def __init__(self, eng):
        self.eng = eng
        self.faults = []
        self.unsure = []
        self.obligations = 0
        self.alt = {}
        self.edge = None        # a key that may stand above lower ones along the right edge

    def fault(self, kind, msg, st):
        self.faults.append((kind, msg, st))

    # every method returns [(state, result)]
    def tree(self, st, cell):
        """[(state, info)] for the tree in a cell."""
        eng = self.eng
        tf = tree_fields(eng)
        v = st.cells[cell]
        if not isinstance(v, Agg):
            return [(st, None)]
        root, size = v.f[tf["root"]], v.f[tf["size"]]
        if root == NONE:
            return [(st, {"k": [], "v": [], "size": size, "lv": None, "seen": set(), "root": None})]
        if not isinstance(root, Agg) or root.v != 1:
            raise Unsupported("root %r" % (root,))
        h = unwrap_handle(root.f[0])
        if h is None:
            self.fault("uninit", "the tree's root pointer is not live", st)
            return []
        out = []
        for s, c in models.resolve(eng, st, h):
            for s2, i in self.node(s, c, True):
                i["size"] = size
                i["root"] = c
                out.append((s2, i))
        return out

    def node(self, st, cell, root=False):
        eng = self.eng
        n = st.nodes.get(cell)
        if n is None:
            raise Unsupported("node identity")
        if n.freed:
            self.fault("freed", "the tree still points to a node that was freed", st)
            return []
        v = st.cells[cell]
        if n.oid is not None and models.is_clean(st, cell):
            o = st.orgs[n.oid]
            last = Key("S", n.oid, o.n - 1) if o.lv else Key("G", o.e - 1)
            seen = {cell}
            self.clean_seen(st, n.oid, seen)
            return [(st, {"k": [(o.e - o.s, "G", o.s)], "v": [(o.e - o.s, "G", o.s)], "lv": o.lv, "seen": seen, "last": last})]
        if not isinstance(v, Agg):
            self.fault("uninit", "the tree points to a node that is not live", st)
            return []
        t = models.node_types(eng)[models.LEAF if n.lv == 0 else models.BRANCH]
        nf = models.node_fields(eng, t)
        ln = v.f[nf["len"]]
        if not isinstance(ln, L):
            raise Unsupported("node length")
        out = []
        self.obligations += 1
        for s, pos in self.split(st, ge(ln - 1)):
            if not pos:
                if not root:
                    self.fault("shape", "a node below the root is left without entries", s)
                    continue
                bad = any(self.count(s, a.s) for a in self.arrays(v, nf))
                if bad:
                    self.fault("leak", "an empty root still holds entries", s)
                    continue
                out.append((s, {"k": [], "v": [], "lv": None if n.lv else 0, "seen": {cell}, "last": None}))
                continue
            out.extend(self.leaf(s, cell, v, nf, ln) if n.lv == 0 else self.branch(s, cell, v, nf, ln))
        return out

    def clean_seen(self, st, oid, seen):
        for _, k in st.orgs[oid].kids:
            c = st.mat.get(k)
            if c is not None:
                if c in seen:
                    self.fault("double", "a node is reachable twice", st)
                seen.add(c)
                self.clean_seen(st, k, seen)

    def arrays(self, v, nf):
        return [find_arr(v.f[nf[k]]) for k in ("keys", "vals", "kids") if k in nf]

    def count(self, st, segs):
        return any(seg[1] != "U" and not st.prove(-seg[0]) for seg in segs)

    def split(self, st, c):
        """[(state, whether c holds)]"""
        a, b = st.branch(c)
        return [(s, True) for s in a if s.alive()] + [(s, False) for s in b if s.alive()]

    def slots(self, st, arr, ln, what):
        """The live segments of an array: exactly its first ln slots."""
        if arr is None:
            self.fault("uninit", "a node's storage is not live", st)
            return []
        out = []
        for s, left, right in models.split_at(self.eng, st, arr.s, ln):
            self.obligations += 2
            ok = True
            cur = [s]
            for seg in left:
                if seg[1] == "U":
                    nxt = []
                    for x in cur:
                        for y, pos in self.split(x, ge(seg[0] - 1)):
                            if pos:
                                if y.feasible():
                                    self.fault("uninit", "a slot of a node's %s within its length is not live" % what, y)
                            else:
                                nxt.append(y)
                    cur = nxt
            for seg in right:
                if seg[1] != "U" and not models.spared(st, arr.e):
                    nxt = []
                    for x in cur:
                        for y, pos in self.split(x, ge(seg[0] - 1)):
                            if pos:
                                if y.feasible():
                                    self.fault("leak", "a live element lies in a node's %s beyond its length" % what, y)
                            else:
                                nxt.append(y)
                    cur = nxt
            live = [g for g in left if g[1] != "U"]
            for x in cur:
                for y, segs in self.nonempty(x, live):
                    out.append((y, segs))
        return out

    def nonempty(self, st, segs):
        """Drop the empty segments: [(state, segments of at least one)]"""
        cur = [(st, [])]
        for g in segs:
            nxt = []
            for s, acc in cur:
                n = s.sys.red(g[0])
                c = n.const()
                if c is not None:
                    nxt.append((s, acc + [g] if c > 0 else acc))
                    continue
                for y, pos in self.split(s, ge(n - 1)):
                    nxt.append((y, acc + [g] if pos else acc))
            cur = nxt
        return cur

    def leaf(self, st, cell, v, nf, ln):
        out = []
        for s, ks in self.slots(st, find_arr(v.f[nf["keys"]]), ln, "keys"):
            for s2, vs in self.slots(s, find_arr(v.f[nf["vals"]]), ln, "values"):
                k = self.entries(s2, ks)
                w = self.entries(s2, vs)
                if k is None or w is None:
                    continue
                if k[-1][1] == "G":
                    last = Key("G", k[-1][2] + k[-1][0] - 1)
                else:
                    last = k[-1][2]
                out.append((s2, {"k": k, "v": w, "lv": 0, "seen": {cell}, "last": last}))
        return out

    def entries(self, st, segs):
        out = []
        for n, k, x, o in segs:
            if k == "G":
                out.append((n, "G", x))
            elif k == "1" and isinstance(x, (Key, Val)):
                if x.k == "G":
                    out.append((ONE, "G", x.a))
                elif x.k == "S":
                    self.unsure.append("a separator is stored as an entry's key")
                    self.fault("content", "a separator key is stored in place of an entry's key", st)
                    return None
                else:
                    out.append((ONE, "1", x))
            elif k == "S":
                self.fault("content", "separator keys are stored in place of entries' keys", st)
                return None
            else:
                raise Unsupported("leaf element %r" % (x,))
        return out

    def align(self, st, A, B):
        """Cut two segment lists at common places: [(state, [(segA, segB)])]"""
        out = []
        work = [(st, list(A), list(B), [])]
        while work:
            s, a, b, acc = work.pop()
            if not a or not b:
                out.append((s, acc))
                continue
            x, y = a[0], b[0]
            d = s.sys.red(x[0] - y[0])
            if not d.t and d.c == 0:
                work.append((s, a[1:], b[1:], acc + [(x, y)]))
                continue
            for z in s.copy().where(eq(d)):
                if z.alive():
                    work.append((z, a[1:], b[1:], acc + [(x, y)]))
            for z in s.copy().where(ge(d - 1)):
                if z.alive():
                    work.append((z, [models.seg_take(x, y[0], x[0] - y[0])] + a[1:], b[1:], acc + [(models.seg_take(x, ZERO, y[0]), y)]))
            for z in s.where(ge(-d - 1)):
                if z.alive():
                    work.append((z, a[1:], [models.seg_take(y, x[0], y[0] - x[0])] + b[1:], acc + [(x, models.seg_take(y, ZERO, x[0]))]))
        return out

    def branch(self, st, cell, v, nf, ln):
        eng = self.eng
        out = []
        hb = v.f[nf["hb"]]
        for s, ks in self.slots(st, find_arr(v.f[nf["keys"]]), ln, "keys"):
            for s2, cs in self.slots(s, find_arr(v.f[nf["kids"]]), ln, "children"):
                for s3, pairs in self.align(s2, ks, cs):
                    for s4, items in self.items(s3, pairs):
                        out.extend(self.finish(s4, cell, hb, items))
        return out

    def items(self, st, pairs):
        """[(state, [('run', X, o, n) | ('one', key, child)])]"""
        eng = self.eng
        cur = [(st, [])]
        for kseg, cseg in pairs:
            nxt = []
            for s, acc in cur:
                if cseg[1] == "C":
                    X, o, n = cseg[2], cseg[3], cseg[0]
                    same = kseg[1] == "S" and kseg[2] == X and s.prove(kseg[3] - o) and s.prove(o - kseg[3])
                    parts = self.runs(s, X, o, n)
                    for s2, ps in parts:
                        its = []
                        ok = True
                        for p in ps:
                            if p[0] == "run":
                                if same:
                                    its.append(p)
                                elif s2.sys.red(p[3]).const() == 1:
                                    key = eng.seg_elem(s2, Arr((), ZERO, "K", None), kseg, p[2] - o)
                                    its.append(("one?", key, X, p[2]))
                                else:
                                    its.append(("mis", kseg, p, o))
                            else:
                                key = eng.seg_elem(s2, Arr((), ZERO, "K", None), kseg, p[1] - o)
                                its.append(("one", key, p[2]))
                        nxt.append((s2, acc + its))
                else:
                    h = unwrap_handle(cseg[2])
                    if h is None:
                        self.fault("uninit", "a branch holds a child that is not live", s)
                        continue
                    key = eng.seg_elem(s, Arr((), ZERO, "K", None), kseg, ZERO)
                    for s2, c in models.resolve(eng, s, h):
                        nxt.append((s2, acc + [("one", key, c)]))
            cur = nxt
        res = []
        for s, its in cur:
            work = [(s, [], its)]
            while work:
                s, done, todo = work.pop()
                if not todo:
                    res.append((s, done))
                    continue
                it = todo[0]
                if it[0] == "one?":
                    for s2, k in s.kid(it[2], it[3]):
                        c = models.cell_of_origin(eng, s2, k, False)
                        work.append((s2, done + [("one", it[1], c)], todo[1:]))
                else:
                    work.append((s, done + [it], todo[1:]))
        return res

    def runs(self, st, X, o, n):
        """Cut a run of children at those that were changed: [(state, [('run',X,o,n)|('kid',j,cell)])]"""
        eng = self.eng
        dirty = []
        for j, k in st.orgs[X].kids:
            c = st.mat.get(k)
            if c is not None and not models.is_clean(st, c):
                dirty.append((j, c))
        cur = [(st, [("run", X, o, n)])]
        for j, c in dirty:
            nxt = []
            for s, ps in cur:
                work = [(s, [], ps)]
                while work:
                    s, done, todo = work.pop()
                    if not todo:
                        nxt.append((s, done))
                        continue
                    p = todo[0]
                    if p[0] != "run":
                        work.append((s, done + [p], todo[1:]))
                        continue
                    _, _, a, m = p
                    ins, outs = s.branch(cand(ge(j - a), ge(a + m - 1 - j)))
                    for x in ins:
                        if x.alive():
                            nxt.extend((y, done + [q for q in (("run", X, a, j - a), ("kid", j, c), ("run", X, j + 1, a + m - j - 1))
                                                  if q[0] == "kid" or y.sys.red(q[3]).const() != 0] + todo[1:]) for y in [x])
                    for x in outs:
                        if x.alive():
                            work.append((x, done + [p], todo[1:]))
            cur = nxt
        # an unchanged one is inside a run or it is not
        for j, k in st.orgs[X].kids:
            c = st.mat.get(k)
            if c is None or any(c == d for _, d in dirty):
                continue
            nxt = []
            for s, ps in cur:
                acc = [s]
                for p in ps:
                    if p[0] == "run":
                        acc = [y for x in acc for side in x.branch(cand(ge(j - p[2]), ge(p[2] + p[3] - 1 - j))) for y in side if y.alive()]
                nxt += [(x, ps) for x in acc]
            cur = nxt
        # no empty runs
        res = []
        for s, ps in cur:
            acc = [(s, [])]
            for p in ps:
                nx = []
                for s2, l in acc:
                    if p[0] != "run":
                        nx.append((s2, l + [p]))
                        continue
                    for y, pos in self.split(s2, ge(p[3] - 1)):
                        nx.append((y, l + [p] if pos else l))
                acc = nx
            res.extend(acc)
        return res

    def finish(self, st, cell, hb, items):
        """Put a branch together from its parts."""
        cur = [(st, [])]
        for it in items:
            nxt = []
            for s, acc in cur:
                if it[0] == "run":
                    _, X, o, n = it
                    a, b = s.cut(X, o), s.cut(X, o + n)
                    lv = s.orgs[X].lv - 1
                    seen = set()
                    for j, k in s.orgs[X].kids:
                        c = s.mat.get(k)
                        if c is not None and s.prove(j - o) and s.prove(o + n - 1 - j):
                            seen.add(c)
                            self.clean_seen(s, k, seen)
                    nxt.append((s, acc + [{"k": [(b - a, "G", a)], "v": [(b - a, "G", a)], "lv": lv, "seen": seen,
                                           "sep": Key("S", X, o + n - 1), "exact": True}]))
                elif it[0] == "mis":
                    kseg, (_, X, a, n), o = it[1], it[2], it[3]
                    self.misaligned(s, kseg, X, a, n, o)
                else:
                    for s2, i in self.node(s, it[2]):
                        nxt.append((s2, acc + [dict(i, sep=it[1], exact=False)]))
            cur = nxt
        out = []
        for s, parts in cur:
            if not parts:
                continue
            out.extend(self.assemble(s, cell, hb, parts))
        return out

    def misaligned(self, st, kseg, X, a, n, o):
        self.obligations += 1
        if st.feasible():
            self.fault("order", "the keys of a branch do not line up with its children", st)

    def assemble(self, st, cell, hb, parts):
        eng = self.eng
        lvs = {p["lv"] for p in parts}
        self.obligations += 2 + 2 * len(parts)
        if len(lvs) > 1:
            self.fault("shape", "children of one branch are at different levels", st)
            return []
        lv = lvs.pop()
        if not isinstance(hb, Cond):
            raise Unsupported("branch flag")
        for s in st.copy().where(hb if lv == 0 else hb.neg()):
            if s.feasible():
                self.fault("type", "a branch of %s says it holds %s" % (("leaves", "branches") if lv == 0 else ("branches", "leaves")), s)
                return []
        seen = {cell}
        for p in parts:
            if seen & p["seen"]:
                self.fault("double", "a node is reachable twice", st)
                return []
            seen |= p["seen"]
        for i, p in enumerate(parts):
            if not p["exact"]:
                last = p["k"][-1]
                hi = Key("G", last[2] + last[0] - 1) if last[1] == "G" else last[2]
                c = st.le(hi, p["sep"])
                if c is None or not st.prove_cond(c):
                    self.order_fault(st, c, "a branch's key is below an entry of its child")
                if p["lv"] > 0 and not st.same_key(p["last"], p["sep"]) and not (self.edge is not None and p is parts[-1] and p["sep"] == self.edge):
                    self.differ(st, p["last"], p["sep"])
            if i + 1 < len(parts):
                first = parts[i + 1]["k"][0]
                lo = Key("G", first[2]) if first[1] == "G" else first[2]
                c = st.lt(p["sep"], lo)
                if c is None or not st.prove_cond(c):
                    self.order_fault(st, c, "a branch's key is not below the entries of the next child")
        k = [x for p in parts for x in p["k"]]
        v = [x for p in parts for x in p["v"]]
        return [(st, {"k": k, "v": v, "lv": lv + 1, "seen": seen, "last": parts[-1]["sep"]})]

    def order_fault(self, st, c, msg):
        if c is None:
            self.unsure.append(msg)
            return
        for s in st.copy().where(c.neg()):
            if s.feasible():
                self.fault("order", msg, s)
                return

    def differ(self, st, a, b):
        lt, gt = st.lt(a, b), st.lt(b, a)
        if lt is None or gt is None:
            self.unsure.append("a branch's last key against its parent's key for it")
            return
        if st.prove_cond(lt.neg()) and st.prove_cond(gt.neg()):
            return
        self.fault("invariant", "a branch's last key is not its parent's key for it", st)

    # ------------------------------------------------ comparing contents
    def canon(self, st, segs):
        """Drop empty pieces and join adjoining ones: [(state, pieces)]"""
        out = []
        segs = [(ONE, "G", self.alt[x]) if k == "1" and x in self.alt else (n, k, x) for n, k, x in segs]
        for s, ps in self.nonempty(st, [(n, k, x, None) for n, k, x in segs]):
            acc = []
            for n, k, x, _ in ps:
                if acc and k == "G" and acc[-1][1] == "G" and s.qeq(acc[-1][2] + acc[-1][0] - x):
                    acc[-1] = (acc[-1][0] + n, "G", acc[-1][2])
                else:
                    acc.append((n, k, x))
            out.append((s, acc))
        return out

    def same(self, st, got, want, what, kind="content"):
        """Compare two entry sequences."""
        self.obligations += 1
        for s, a in self.canon(st, got):
            for s2, b in self.canon(s, want):
                if not s2.alive():
                    continue
                d = self.diff(s2, a, b)
                if d is not None and s2.feasible():
                    self.fault(kind, "%s: %s instead of %s" % (what, show(s2, a), show(s2, b)), s2)
                    return False
        return True

    def diff(self, st, a, b):
        if len(a) != len(b):
            return "pieces"
        for (n, k, x), (m, l, y) in zip(a, b):
            if k != l:
                return "kind"
            if k == "G":
                if not self.equal(st, n, m) or not self.equal(st, x, y):
                    return "window"
            elif x != y:
                return "entry"
        return None

    def equal(self, st, a, b):
        return st.prove(a - b) and st.prove(b - a)

    def total(self, segs):
        n = ZERO
        for g in segs:
            n = n + g[0]
        return n


def show(st, segs):
    out = []
    for n, k, x in segs:
        if k == "G":
            out.append("entries %s..%s" % (st.sys.red(x), st.sys.red(x + n)))
        else:
            out.append(repr(x))
    return "[%s]" % ", ".join(out)
