"""Memory safety whatever user code does.

User code may panic wherever it is called, and may order keys as it likes: an operation that is cut short
can leave a tree with separators that do not fit, a length that is off, nodes without entries. So the
trees these analyses start from are known by their storage alone - every node a live node of the kind its
parent says, its first slots live up to its length - and comparisons may answer anything. From each such
tree every operation is followed, returning and unwinding, cleanup code included; what it leaves must be
such a tree again. The next operation, in whatever state the last one was cut short, is then covered."""
from .cases import Case
from .dom import *
from .interp import Out
from .ops import T
from .tree import *
from .iters import OWN, UNB, INC, EXC, bound, step_fns
from . import loading, models, storage
from .models import NONE, find_arr, unwrap_handle

SAFETY = {"shape", "oob", "uninit", "freed", "type", "null", "dangling", "unreachable", "local", "double"}


class Storage(Walk):
    """What the storage of a tree has to be like, whatever it holds."""

    def tree(self, st, cell):
        v = st.cells[cell]
        if not isinstance(v, Agg) or any(x is MOVED or x is UNINIT for x in v.f):
            self.obligations += 1
            self.fault("uninit", "what the tree was made of has been moved out of it, and the caller still has it", st)
            return []
        return Walk.tree(self, st, cell)

    def node(self, st, cell, root=False):
        eng = self.eng
        n = st.nodes.get(cell)
        if n is None:
            raise Unsupported("node identity")
        if n.freed:
            self.fault("freed", "the tree still points to a node that was freed", st)
            return []
        if n.oid is not None and models.is_clean(st, cell):
            seen = {cell}
            self.clean_seen(st, n.oid, seen)
            return [(st, {"lv": st.orgs[n.oid].lv, "seen": seen})]
        v = st.cells[cell]
        if not isinstance(v, Agg):
            self.fault("uninit", "the tree points to a node that is not live", st)
            return []
        t = models.node_types(eng)[models.LEAF if n.lv == 0 else models.BRANCH]
        nf = models.node_fields(eng, t)
        ln = v.f[nf["len"]]
        if not isinstance(ln, L):
            raise Unsupported("node length")
        out = []
        for s, _ in self.slots(st, find_arr(v.f[nf["keys"]]), ln, "keys"):
            if n.lv == 0:
                self.obligations += 1
                bad = s.copy()
                bad.ge(-ln)
                if bad.alive() and bad.feasible():
                    self.fault("shape", "a leaf without entries stays in the tree", bad)
                    continue
                out += [(x, {"lv": 0, "seen": {cell}}) for x, _ in self.slots(s, find_arr(v.f[nf["vals"]]), ln, "values")]
                continue
            for s2, cs in self.slots(s, find_arr(v.f[nf["kids"]]), ln, "children"):
                out += self.children(s2, cell, v.f[nf["hb"]], cs, root)
        return out

    def children(self, st, cell, hb, segs, root):
        if not isinstance(hb, Cond):
            raise Unsupported("branch flag")
        cur = [(st, {cell}, None)]
        for seg in segs:
            nxt = []
            for s, seen, lv in cur:
                for s2, more, l in self.child(s, seg):
                    if seen & more:
                        self.fault("double", "a node is reachable twice", s2)
                    elif lv is not None and l is not None and lv != l:
                        self.fault("type", "children of one branch are at different levels", s2)
                    else:
                        nxt.append((s2, seen | more, l if lv is None else lv))
            cur = nxt
        out = []
        for s, seen, lv in cur:
            self.obligations += 1
            if lv is None:
                lv = 0 if root else st.nodes[cell].lv - 1
            bad = [] if root and len(seen) == 1 else s.copy().where(hb if lv == 0 else hb.neg())
            if any(x.feasible() for x in bad):
                self.fault("type", "a branch of %s says it holds %s" % (("leaves", "branches") if lv == 0 else ("branches", "leaves")), s)
                continue
            out.append((s, {"lv": lv + 1, "seen": seen}))
        return out

    def child(self, st, seg):
        """[(state, cells, level)] of one segment of a branch's children."""
        out = []
        if seg[1] != "C":
            h = unwrap_handle(seg[2])
            if h is None:
                self.fault("uninit", "a branch holds a child that is not live", st)
                return []
            for s, c in models.resolve(self.eng, st, h):
                out += [(s2, i["seen"], i["lv"]) for s2, i in self.node(s, c)]
            return out
        X, o, n = seg[2], seg[3], seg[0]
        lv = st.orgs[X].lv - 1
        for s, parts in self.runs(st, X, o, n):
            cur = [(s, set())]
            for p in parts:
                nxt = []
                for s2, seen in cur:
                    if p[0] == "run":
                        more = set()
                        for j, k in s2.orgs[X].kids:
                            c = s2.mat.get(k)
                            if c is not None and s2.prove(j - p[2]) and s2.prove(p[2] + p[3] - 1 - j):
                                more.add(c)
                                self.clean_seen(s2, k, more)
                        nxt.append((s2, seen | more))
                    else:
                        nxt += [(s3, seen | i["seen"]) for s3, i in self.node(s2, p[2])]
                cur = nxt
            out += [(s2, seen, lv) for s2, seen in cur]
        return out


# ---------------------------------------------------------------- what is left behind

def sound(ctx, st, cell, when):
    """The tree in the cell must have sound storage."""
    w = Storage(ctx.eng)
    w.tree(st, cell)
    ctx.obligations += w.obligations + 1
    for kind, msg, s in w.faults:
        if kind != "leak" and s.feasible():
            ctx.find(kind, msg + when, s)
    for m in w.unsure:
        ctx.unsure[m] = ctx.unsure.get(m, 0) + 1


AFTER = ", after user code panicked"


def run(ctx, st, key, args, tree):
    """A call that may return or unwind: the tree is sound after both. Returns the states in which it returned."""
    out = []
    if tree is not None:
        ctx.eng.again = lambda st, key, args: over(ctx, st, args, tree)
    for o in ctx.eng.run_fn(st, key, args):
        if not o.st.alive():
            continue
        ctx.outcomes += 1
        back = o.k == "ret"
        o.st.unwinding = False
        if tree is not None and tree in o.st.cells:
            sound(ctx, o.st.copy(), tree, "" if back else AFTER)
        if back:
            out.append((o.st, o.v))
        else:
            again(ctx, o.st, key, args, tree)
    return out


def over(ctx, st, args, tree):
    """A function starts over on a tree that must be sound by then: what it does is what it does to any such tree."""
    sound(ctx, st.copy(), tree, " when the operation is tried again")
    for a in args[1:]:
        if a is UNINIT or a is MOVED:
            ctx.find("uninit", "what an operation is tried again with is not live", st)
    return True


def again(ctx, st, key, args, tree):
    """After unwinding: whatever else the caller still holds can be dropped and, if it is an iterator, asked again."""
    eng = ctx.eng
    info = ctx.prog.info(key)
    for i, a in enumerate(args):
        t = eng.ty(info.locals[1 + i])
        if t["k"] != "ref" or not t["mut"] or not isinstance(a, Ptr) or a.p or a.c == tree:
            continue
        if eng.needs_drop(t["t"]):
            eng.drop_at(st.copy(), a, t["t"], 0)
            ctx.obligations += 1
        if "Iterator>::next" in key:
            eng.unwind = False
            try:
                for o in eng.run_fn(st.copy(), key, args):
                    ctx.obligations += 1
            finally:
                eng.unwind = True


def drop(ctx, st, cell, ty, tree=None):
    for o in ctx.eng.drop_at(st, Ptr(cell), ty, 0):
        if o.st.alive():
            ctx.outcomes += 1
            if tree is not None:
                o.st.unwinding = False
                sound(ctx, o.st, tree, "" if o.k == "ret" else AFTER)


# ---------------------------------------------------------------- trees known by their storage

def beginning(ctx, start):
    eng = ctx.eng
    st = fresh_state()
    st.loose = True
    if start == "new":
        st, t = empty(eng, st)
    elif start in ("hollow", "hollow+"):
        st, t = hollow(eng, start == "hollow+", st)
    else:
        st, t = wide(eng, start, st)
    n = fresh("size")
    st.ge(n)
    st.ge(L.of(BIG) - n)
    tf = tree_fields(eng)
    v = st.cells[t.cell]
    f = list(v.f)
    f[tf["size"]] = n
    st.cells[t.cell] = Agg(v.v, tuple(f))
    return st, t


K1, K2, V1 = Key("N", "k1"), Key("N", "k2"), Val("N", "new")


def op(ctx, start, fn):
    eng = ctx.eng
    st, t = beginning(ctx, start)
    args = [Ptr(t.cell)]
    if fn in ("get", "get_linear", "get_mut", "remove"):
        args.append(Ptr(st.new_cell(K1)))
    elif fn in ("insert", "insert_recursive"):
        args += [K1, V1]
    for s, v in run(ctx, st, ctx.fn(T + fn), args, t.cell):
        if fn.startswith("get") and v != NONE:
            used(ctx, s, v.f[0], Val)


def used(ctx, st, p, what):
    """What was lent is a live key or value."""
    ctx.obligations += 1
    for s, x in ctx.eng.load(st, p):
        if not isinstance(x, what) and s.feasible():
            ctx.find("uninit", "what is lent is not a live %s but %r" % ("value" if what is Val else "key", x), s)


def entry(ctx, start, occupied, vacant):
    eng = ctx.eng
    st, t = beginning(ctx, start)
    f = ctx.fn(T + "entry")
    for s, e in run(ctx, st, f, [Ptr(t.cell), K1], t.cell):
        ety = eng.ty(ctx.prog.bodies[f]["locals"][0])
        name = ety["variants"][e.v]["name"]
        m = occupied if name == "Occupied" else vacant
        if m is None:
            continue
        m = ctx.fn("entry::%sEntry::<'a, K, V, C>::%s" % (name, m))
        h = e.f[0]
        byval = eng.ty(ctx.prog.info(m).locals[1])["k"] != "ref"
        args = [h if byval else Ptr(s.new_cell(h))]
        if ctx.prog.bodies[m]["args"] == 2:
            args.append(V1)
        for s2, v in run(ctx, s, m, args, t.cell):
            if isinstance(v, Ptr):
                used(ctx, s2, v, Key if "::key" in m else Val)
            elif not byval:
                for m2 in ("get_mut",):
                    if name == "Occupied":
                        run(ctx, s2, ctx.fn("entry::OccupiedEntry::<'a, K, V, C>::" + m2), args[:1], t.cell)


def borrow(ctx, start, lo, hi, mut, seqs):
    st, t = beginning(ctx, start)
    args = [Ptr(t.cell), Opq("range", (bound(ctx, st, lo, K1), bound(ctx, st, hi, K2)))]
    f = ctx.fn(T + ("range_mut" if mut else "range"))
    fns = step_fns(ctx, mut)
    for s, v in run(ctx, st, f, args, t.cell):
        work = [(s, s.new_cell(v), "")]
        while work:
            s, ic, done = work.pop()
            for d in sorted({q[len(done)] for q in seqs if q.startswith(done) and len(q) > len(done)}):
                for s2, x in run(ctx, s.copy(), fns[d], [Ptr(ic)], t.cell):
                    if x != NONE:
                        pk, pv = x.f[0].f
                        used(ctx, s2, pk, Key)
                        used(ctx, s2, pv, Val)
                    work.append((s2, ic, done + d))


def owned(ctx, start, seqs):
    eng = ctx.eng
    st, t = beginning(ctx, start)
    f = ctx.fn("<PalmTree<K, V, C> as std::iter::IntoIterator>::into_iter")
    ty = ctx.prog.bodies[f]["locals"][0]
    fns = {"f": ctx.fn(OWN + "Iterator>::next"), "b": ctx.fn(OWN + "DoubleEndedIterator>::next_back")}
    tree = st.cells[t.cell]
    st.cells[t.cell] = MOVED
    for s, v in run(ctx, st, f, [tree], None):
        work = [(s, s.new_cell(v), "")]
        while work:
            s, ic, done = work.pop()
            drop(ctx, s.copy(), ic, ty)
            for d in sorted({q[len(done)] for q in seqs if q.startswith(done) and len(q) > len(done)}):
                for s2, x in run(ctx, s.copy(), fns[d], [Ptr(ic)], None):
                    work.append((s2, ic, done + d))


def dropping(ctx, start, bodies):
    eng = ctx.eng
    eng.drop_bodies = bodies
    st, t = beginning(ctx, start)
    drop(ctx, st, t.cell, tree_type(eng))


def cloning(ctx, start):
    st, t = beginning(ctx, start)
    f = ctx.fn("<PalmTree<K, V, C> as std::clone::Clone>::clone")
    for s, v in run(ctx, st, f, [Ptr(t.cell)], t.cell):
        c = s.new_cell(v)
        sound(ctx, s.copy(), c, " in a clone")
        drop(ctx, s, c, tree_type(ctx.eng), t.cell)


# ---------------------------------------------------------------- cases

def bodies(ctx, what, h, n, m=None):
    """The bodies of copying and dropping nodes, cut short by user code at any entry."""
    eng = ctx.eng
    eng.drop_bodies = True
    st, t = storage.narrow(ctx, h, n, m)
    if not st.alive():
        return
    if what == "drop":
        return drop(ctx, st, t.cell, tree_type(eng))
    f = ctx.fn("<branch::Branch<K, V, C> as std::clone::Clone>::clone")
    cell = models.unwrap_handle(storage.root_of(ctx, st, t)).n
    for s, v in run(ctx, st, f, [Ptr(cell)], t.cell):
        pass


def leaf_bodies(ctx, what, m):
    eng = ctx.eng
    eng.drop_bodies = True
    st, t = storage.narrow(ctx, 1, 1, m)
    if not st.alive():
        return
    cell = models.unwrap_handle(storage.root_of(ctx, st, t)).n
    for s, k in st.kid(t.root, L.of(0)):
        c = models.cell_of_origin(eng, s, k, True)
        f = ctx.fn("<leaf::Leaf<K, V, C> as std::clone::Clone>::clone")
        for s2, v in run(ctx, s, f, [Ptr(c)], None):
            pass


def loading_cut(ctx, levels, small=0):
    """Bulk loading, the input or the key order cutting it short."""
    eng = ctx.eng
    N = loading.given(ctx, False)
    eng.fold = None if small else loading.Folder(ctx)
    eng.max_vec = levels
    eng.opaque_drop = False
    st = fresh_state()
    st.ge(N)
    st.ge(L.of(BIG) - N)
    pin(st, N)
    if small:
        st.eq(LC - small)
        st.eq(BC - small)
    key = [k for k in ctx.prog.bodies if k.startswith("crate::PalmTree::<K, V, C>::load<K,V,C,I>")][0]
    for s, v in run(ctx, st, key, [Agg(0, (Opq("user"), ZERO, FALSE))], None):
        sound(ctx, s, s.new_cell(v), "")


class Composed:
    """An operation put together from others: bulk loading and inserting are known for what they may do (return or be cut short,
    dropping what they were given, and leave sound trees), everything else is followed."""

    def __init__(self, ctx, cell=None):
        self.ctx, self.eng, self.cell = ctx, ctx.eng, cell
        self.loaded = self.inserted = 0

    def override(self, c):
        p = c.get("rpath") or c["path"]
        if p.endswith("PalmTree::<K, V, C>::load"):
            return self.load
        if p.endswith("PalmTree::<K, V, C>::insert") or p.endswith("PalmTree::<K, V, C>::insert_recursive"):
            return self.insert
        return None

    def cut(self, st, what):
        return models.user_panic(self.eng, st, what)

    def load(self, eng, st, args, c, t, depth):
        """Takes some of the items, drops the iterator, and returns a tree or does not."""
        self.loaded += 1
        ty = c["args"][-1]["t"] if isinstance(c["args"][-1], dict) else c["args"][-1]
        out = []
        for cut in (False, True):
            s = st.copy()
            cell = s.new_cell(args[0])
            for o in eng.drop_at(s, Ptr(cell), ty, depth):
                if o.k == "ret" and cut:
                    out += self.cut(o.st, "PalmTree::load")
                elif o.k == "ret":
                    out.append(Out(o.st, "ret", tree_agg(eng, ZERO, NONE)))
                else:
                    out.append(o)
        return out

    def insert(self, eng, st, args, c, t, depth):
        self.inserted += 1
        tree, k, v = args
        for x, what in ((k, Key), (v, Val)):
            self.ctx.obligations += 1
            if not isinstance(x, what):
                self.ctx.find("uninit", "what is inserted is not live", st)
        if isinstance(tree, Ptr) and isinstance(st.cells.get(tree.c), Agg) and not tree.p:
            sound(self.ctx, st.copy(), tree.c, " when an entry is inserted")
        return [Out(st.copy(), "ret", NONE)] + self.cut(st.copy(), "PalmTree::insert")


def composed(ctx, fn, a, b, how):
    eng = ctx.eng
    st, ta = beginning(ctx, a)
    ca = ta.cell
    st, tb = second(ctx, b, st)
    cb = tb.cell
    w = Composed(ctx)
    eng.override = w.override
    args = {"vv": [st.cells[ca], st.cells[cb]], "mv": [Ptr(ca), st.cells[cb]]}[how]
    st.cells[cb] = MOVED
    if how[0] == "v":
        st.cells[ca] = MOVED
    for s, v in run(ctx, st, ctx.fn(fn), args, ca if how[0] == "m" else None):
        if how[0] == "v":
            sound(ctx, s, s.new_cell(v), "")


def second(ctx, start, st):
    return empty(ctx.eng, st) if start == "new" else wide(ctx.eng, start, st)


def collected(ctx, fn, a):
    """Collecting and extending, the caller's iterator cutting it short."""
    eng = ctx.eng
    N = loading.given(ctx, False)
    user = eng.override
    st, t = beginning(ctx, a)
    w = Composed(ctx)
    eng.override = lambda c: w.override(c) or user(c)
    st.ge(N)
    st.ge(L.of(BIG) - N)
    pin(st, N)
    it = Agg(0, (Opq("user"), ZERO, FALSE))
    mine = fn.endswith("extend")
    for s, v in run(ctx, st, ctx.fn(fn), [Ptr(t.cell), it] if mine else [it], t.cell if mine else None):
        if not mine:
            sound(ctx, s, s.new_cell(v), "")


OPS = ("get", "get_linear", "get_mut", "insert", "insert_recursive", "remove", "remove_lowest", "remove_highest", "len", "is_empty")
ENTRY = (("get", "key"), ("key", "into_key"), ("get_mut", "insert"), ("into_mut", None), ("insert", None), ("remove", None), ("remove_entry", None))
STARTS = ("new", "hollow", "hollow+", 1, 2)


def op_cases(debug=True, shared=False, starts=STARTS, deep=False):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")

    def case(name, k, run, **kw):
        out.append(Case("unsettled: %s on %s%s" % (name, k, sfx), "C16", run, debug, shared, True, cost=10 * k if isinstance(k, int) else 0,
                        limit=6000000 if deep else 1600000, seconds=600 if deep else 240, start=k, **kw))
    for k in starts:
        for fn in OPS:
            case(fn, k, op, fn=fn)
        for o, v in ENTRY:
            case("entry %s/%s" % (o, v), k, entry, occupied=o, vacant=v)
        for mut in (False, True):
            for lo, hi in ((UNB, UNB), (INC, EXC), (EXC, INC), (INC, UNB), (UNB, EXC)):
                case("range%s %s %s" % ("_mut" if mut else "", lo, hi), k, borrow, lo=lo, hi=hi, mut=mut,
                     seqs=("f", "b") if UNB not in (lo, hi) else ("ff", "fb", "bf", "bb") if (lo, hi) == (UNB, UNB) else ("ff", "fb", "b") if hi == UNB else ("f", "bf", "bb"))
        case("into_iter", k, owned, seqs=("ff", "fb", "bf", "bb"))
        case("drop", k, dropping, bodies=False)
        case("clone", k, cloning)
    for c in out:
        if c.kw["start"] == 2 and ("range" in c.name or "into_iter" in c.name or "insert" in c.name and "recursive" not in c.name):
            c.unroll = 3 if deep else 2
    return out


def body_cases(debug=True, shared=False):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for what in ("clone", "drop"):
        for h, n, m in ((1, 1, 1), (1, 2, 2), (1, 3, 1), (2, 1, 1), (2, 2, 1)):
            out.append(Case("cut short: branch %s, %d children at level %d with %d each%s" % (what, n, h, m, sfx), "C16", bodies, debug, shared, True,
                            unroll=8, cost=30, what=what, h=h, n=n, m=m))
    for m in (1, 2, 3):
        out.append(Case("cut short: leaf clone of %d%s" % (m, sfx), "C16", leaf_bodies, debug, shared, True, unroll=8, what="clone", m=m))
    return out


def load_cases(debug=True, shared=False, levels=2):
    c = Case("cut short: load, up to %d levels%s" % (levels, "" if debug else " release"), "C16", loading_cut, debug, False, True,
             cost=100, levels=levels, limit=2000000, seconds=20 + 25 * levels)
    c.small = ({"small": 4}, 140)
    return [c]


WHOLE = ((T + "append_left", "mv"), (T + "append_right", "mv"), (T + "merge_left", "vv"), (T + "merge_right", "vv"),
         ("<PalmTree<K, V, C> as std::ops::Add>::add", "vv"), ("<PalmTree<K, V, C> as std::ops::AddAssign>::add_assign", "mv"))


def whole_cases(debug=True, shared=False):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for fn, how in WHOLE:
        for a in ("new", "hollow", 1):
            for b in ("new", 1):
                out.append(Case("unsettled: %s of %s and %s%s" % (fn.split("::")[-1], a, b, sfx), "C16", composed, debug, shared, True, cost=15, fn=fn, a=a, b=b, how=how))
    for fn in ("<PalmTree<K, V, C> as std::iter::FromIterator<(K, V)>>::from_iter", "<PalmTree<K, V, C> as std::iter::Extend<(K, V)>>::extend"):
        for a in (("new", 1) if fn.endswith("extend") else ("new",)):
            out.append(Case("cut short: %s on %s%s" % (fn.split("::")[-1], a, sfx), "C16", collected, debug, shared, True, cost=5, fn=fn, a=a))
    return out


def all_cases(debug=True, shared=False, **kw):
    return op_cases(debug, shared, **kw) + body_cases(debug, shared) + load_cases(debug) + whole_cases(debug, shared)
