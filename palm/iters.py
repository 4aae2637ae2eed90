"""Iterators by reference and mutably, over whole trees and ranges."""
from .cases import Case, Missing
from .dom import *
from .tree import *
from .ops import T, starting, kinds, G, one, HEIGHTS
from .models import NONE

UNB, INC, EXC = "unbounded", "included", "excluded"
REF = "<iter::ref_iter::Iter<'a, K, V, C> as std::iter::"
MUT = "<iter::mut_iter::IterMut<'a, K, V, C> as std::iter::"
SEQS = ("ff", "fb", "bf", "bb")


def bound(ctx, st, kind, key):
    """A std::ops::Bound<&K> value."""
    if kind == UNB:
        return Agg(2, ())
    return Agg(0 if kind == INC else 1, (Ptr(st.new_cell(key)),))


def step_fns(ctx, mut):
    names = {"f": "Iterator>::next", "b": "DoubleEndedIterator>::next_back"}
    pre = MUT if mut else REF
    return {d: ctx.fn(pre + n, "<K,V,C>") for d, n in names.items()}


def ranges(ctx, start, lo, hi, order, mut, seqs, whole=None):
    """range(lo, hi), then steps from the ends. order: how the two bound keys compare."""
    eng = ctx.eng
    st, t = starting(ctx, start)
    N = t.N
    first, last = ZERO, N - 1
    k1 = k2 = None
    if lo != UNB:
        k1 = Key("N", "k1")
        P, Q = st.add_key("k1")
        st.ge(N - Q)
        pin(st, *syms_in(P, Q))
        first = P if lo == INC else Q
    if hi != UNB:
        if order == "=":
            k2 = k1
        else:
            k2 = Key("N", "k2")
            P, Q = st.add_key("k2")
            st.ge(N - Q)
            pin(st, *syms_in(P, Q))
        P, Q = st.keys[k2.a]
        last = Q - 1 if hi == INC else P - 1
    may_panic = False
    if lo != UNB and hi != UNB:
        (P1, Q1), (P2, Q2) = st.keys["k1"], st.keys[k2.a]
        if order == "<":
            st.order = {**st.order, ("k1", "k2"): True}
            st.ge(P2 - Q1)
        elif order == ">":
            st.order = {**st.order, ("k2", "k1"): True}
            st.ge(P1 - Q2)
            may_panic = True
        else:
            may_panic = lo == EXC and hi == EXC
    if not st.alive():
        return
    if whole:
        args = [Ptr(t.cell)]
        f = ctx.fn(whole, "<K,V,C>")
    else:
        args = [Ptr(t.cell), Opq("range", (bound(ctx, st, lo, k1), bound(ctx, st, hi, k2)))]
        f = ctx.fn(T + ("range_mut" if mut else "range"))
    fns = step_fns(ctx, mut)
    for s, v in ctx.call(st, f, args, panics=None if may_panic else "panic"):
        steps(ctx, s, t, v, first, last, mut, fns, seqs)


def syms_in(*es):
    out = set()
    for e in es:
        syms_of(e, out)
    return out


def steps(ctx, s, t, it, first, last, mut, fns, seqs):
    """From an iterator over the entries first..=last, every sequence of steps."""
    work = [(s, s.new_cell(it), "", first, last, ())]
    while work:
        s, ic, done, a, b, lent = work.pop()
        nxt = sorted({q[len(done)] for q in seqs if q.startswith(done) and len(q) > len(done)})
        if not nxt:
            if mut and lent:
                written(ctx, s, t, lent)
            continue
        for d in nxt:
            if d == "c":
                # from here on a copy of the iterator is used
                for y, v in ctx.call(s.copy(), ctx.fn("<iter::ref_iter::Iter<'a, K, V, C> as std::clone::Clone>::clone"), [Ptr(ic)]):
                    work.append((y, y.new_cell(v), done + d, a, b, lent))
                continue
            for some_left in (True, False):
                for x in s.copy().where(ge(b - a) if some_left else ge(a - b - 1)):
                    if not x.alive():
                        continue
                    for y, v in ctx.call(x, fns[d], [Ptr(ic)]):
                        at = a if d == "f" else b
                        how = "from the %s" % ("front" if d == "f" else "back")
                        if v == NONE:
                            if ctx.ensure("spec", y, not some_left, "iteration %s stops while entries are left" % how):
                                work.append((y, ic, done + d, a, b, lent))
                            continue
                        if not ctx.ensure("spec", y, some_left, "iteration %s goes on past its end" % how):
                            continue
                        pk, pv = v.f[0].f
                        for z, k in ctx.eng.load(y, pk):
                            for w, x2 in ctx.eng.load(z, pv):
                                ok = ctx.ensure("spec", w, isinstance(k, Key) and k.k == "G" and eq(k.a - at), "iteration %s yields the key of another entry" % how)
                                ok &= ctx.ensure("spec", w, isinstance(x2, Val) and x2.k == "G" and eq(x2.a - at), "iteration %s yields the value of another entry" % how)
                                if not ok:
                                    continue
                                na, nb = (a + 1, b) if d == "f" else (a, b - 1)
                                work.append((w, ic, done + d, na, nb, lent + ((pv, at),)))


def written(ctx, s, t, lent):
    """Write through everything lent, then look at the tree."""
    cur = [s]
    for i, (p, at) in enumerate(lent):
        cur = [y for x in cur for y in ctx.eng.store(x, p, Val("N", "w%d" % i))]
    # the positions in ascending order
    fr = sorted(range(len(lent)), key=lambda i: i)
    for x in cur:
        def put(x, order):
            vals, pos = [], ZERO
            for i in order:
                at = lent[i][1]
                vals += [G(pos, at), one(Val("N", "w%d" % i))]
                pos = at + 1
            vals.append(G(pos, t.N))
            ctx.walk(x, t.cell, ([G(ZERO, t.N)], vals))
        if len(lent) == 1:
            put(x, [0])
        elif len(lent) == 2:
            d = lent[1][1] - lent[0][1]
            for c, order in ((ge(d - 1), [0, 1]), (ge(-d - 1), [1, 0])):
                for y in x.copy().where(c):
                    if y.alive():
                        put(y, order)
            ctx.ensure("spec", x, eq(d).neg(), "a value is lent twice")


def bounds():
    out = [(UNB, UNB, "")]
    for b in (INC, EXC):
        out += [(b, UNB, ""), (UNB, b, "")]
    for a in (INC, EXC):
        for b in (INC, EXC):
            out += [(a, b, o) for o in "<=>"]
    return out


def range_cases(debug=True, shared=False, muts=(False, True), seqs=SEQS):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for mut in muts:
        for lo, hi, o in bounds():
            for k in kinds():
                # between two different keys both ends split independently: from height 2 on, one step
                seqs_ = ("f", "b") if o == "<" and isinstance(k, int) and k > 1 else seqs
                out.append(Case("range%s %s %s%s on %s%s" % ("_mut" if mut else "", lo, hi, " " + o if o else "", k, sfx), "C06", ranges, debug, shared,
                                cost=k if isinstance(k, int) else 0, start=k, lo=lo, hi=hi, order=o, mut=mut, seqs=seqs_))
    return out


def iter_cases(debug=True, shared=False, muts=(False, True), seqs=SEQS):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    whole = {False: (T + "iter", "<&'a PalmTree<K, V, C> as std::iter::IntoIterator>::into_iter"),
             True: (T + "iter_mut", "<&'a mut PalmTree<K, V, C> as std::iter::IntoIterator>::into_iter")}
    for mut in muts:
        for w in whole[mut]:
            for k in kinds():
                out.append(Case("%s%s on %s%s" % ("iter_mut" if mut else "iter", " by into_iter" if "into_iter" in w else "", k, sfx), "C05", ranges, debug, shared,
                                cost=k if isinstance(k, int) else 0, start=k, lo=UNB, hi=UNB, order="", mut=mut, seqs=seqs, whole=w))
    return out


def copy_cases(debug=True, shared=False):
    """A copy of an iterator goes on where the original is."""
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for k in kinds():
        out.append(Case("iter, copied, on %s%s" % (k, sfx), "C05", ranges, debug, shared,
                        cost=k if isinstance(k, int) else 0, start=k, lo=UNB, hi=UNB, order="", mut=False, seqs=("fcf", "fcb", "bcf", "bcb", "cf", "cb"), whole=T + "iter"))
        if not isinstance(k, int) or k < 2:
            out.append(Case("range included excluded <, copied, on %s%s" % (k, sfx), "C05", ranges, debug, shared,
                            cost=3, start=k, lo=INC, hi=EXC, order="<", mut=False, seqs=("fcf", "bcb", "cf", "cb")))
    return out


# ---------------------------------------------------------------- C07

OWN = "<iter::owned::OwnedIter<K, V, C> as std::iter::"


def gone(st, cell):
    """Is the node freed, itself or as part of a subtree that was?"""
    n = st.nodes[cell]
    if n.freed:
        return True
    if n.oid is not None:
        p = st.orgs[n.oid].parent
        if p is not None:
            pc = st.mat.get(p[0])
            if pc is not None and st.cells.get(pc) is st.nodes[pc].clean:
                return gone(st, pc)
    return False


def dropped(ctx, st, cell, ty, what):
    """Drop a value that owns a tree: nothing must be left behind."""
    for o in ctx.eng.drop_at(st, Ptr(cell), ty, 0):
        if o.k == "panic":
            ctx.find("panic", "panic (%s) while dropping %s" % (o.v[0], what), o.st, o.v[1])
        if o.k != "ret" or not o.st.alive():
            continue
        ctx.outcomes += 1
        left = [c for c in o.st.nodes if not gone(o.st, c)]
        ctx.obligations += 1
        if left and not ctx.case.shared and o.st.feasible():
            ctx.find("leak", "dropping %s leaves a node behind" % what, o.st)


def owned(ctx, start, seqs):
    eng = ctx.eng
    st, t = starting(ctx, start)
    N = t.N
    f = ctx.fn("<PalmTree<K, V, C> as std::iter::IntoIterator>::into_iter")
    ty = ctx.prog.bodies[f]["locals"][0]
    fns = {"f": ctx.fn(OWN + "Iterator>::next"), "b": ctx.fn(OWN + "DoubleEndedIterator>::next_back")}
    hint = ctx.fn(OWN + "Iterator>::size_hint")
    tree = st.cells[t.cell]
    st.cells[t.cell] = MOVED
    for s, v in ctx.call(st, f, [tree]):
        work = [(s, s.new_cell(v), "", ZERO, N - 1)]
        while work:
            s, ic, done, a, b = work.pop()
            pin(s, *syms_in(a, b))
            counted(ctx, s.copy(), hint, ic, b + 1 - a)
            dropped(ctx, s.copy(), ic, ty, "an owning iterator")
            for d in sorted({q[len(done)] for q in seqs if q.startswith(done) and len(q) > len(done)}):
                for left in (True, False):
                    for x in s.copy().where(ge(b - a) if left else ge(a - b - 1)):
                        if x.alive():
                            for y, v in ctx.call(x, fns[d], [Ptr(ic)]):
                                taken(ctx, y, v, ic, done + d, a, b, left, d, work)


def counted(ctx, s, hint, ic, want):
    for y, v in ctx.call(s, hint, [Ptr(ic)]):
        lo, hi = v.f
        ctx.ensure("spec", y, isinstance(lo, L) and eq(lo - want), "the lower size hint of an owning iterator is not the number of entries left")
        ctx.ensure("spec", y, isinstance(hi, Agg) and len(hi.f) == 1 and eq(hi.f[0] - want), "the upper size hint of an owning iterator is not the number of entries left")


def taken(ctx, y, v, ic, done, a, b, left, d, work):
    at = a if d == "f" else b
    how = "from the %s" % ("front" if d == "f" else "back")
    if v == NONE:
        if ctx.ensure("spec", y, not left, "consuming iteration %s stops while entries are left" % how):
            work.append((y, ic, done, a, b))
        return
    if not ctx.ensure("spec", y, left, "consuming iteration %s goes on past its end" % how):
        return
    k, x = v.f[0].f
    ok = ctx.ensure("spec", y, isinstance(k, Key) and k.k == "G" and eq(k.a - at), "consuming iteration %s yields another entry's key" % how)
    ok &= ctx.ensure("spec", y, isinstance(x, Val) and x.k == "G" and eq(x.a - at), "consuming iteration %s yields another entry's value" % how)
    if ok:
        work.append((y, ic, done, a + 1, b) if d == "f" else (y, ic, done, a, b - 1))


ALL3 = tuple(a + b + c for a in "fb" for b in "fb" for c in "fb")


def owned_cases(debug=True, shared=False, heights=HEIGHTS, seqs=ALL3):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for k in kinds(heights):
        out.append(Case("into_iter on %s%s" % (k, sfx), "C07", owned, debug, shared, start=k, seqs=seqs,
                        cost=50 * k if isinstance(k, int) else 0))
    return out


def all_cases(debug=True, shared=False):
    return iter_cases(debug, shared) + range_cases(debug, shared) + owned_cases(debug, shared) + copy_cases(debug, shared)
