"""Copying and dropping trees and nodes; length; construction."""
from .cases import Case
from .dom import *
from .tree import *
from . import models
from .iters import dropped, gone
from .ops import T, starting, with_key, kinds, G, one, HEIGHTS
from .models import NONE, some

CLONE = "<PalmTree<K, V, C> as std::clone::Clone>::clone"


def both(ctx, s, t, cell, what):
    """The tree and a copy of it in `cell`: same entries, no node in common that either may write to."""
    N = t.N
    want = ([G(ZERO, N)], [G(ZERO, N)])
    for x, (a, b) in pair_walk(ctx, s, t.cell, cell, want, want, what):
        both_nodes = a["seen"] & b["seen"]
        bad = [c for c in both_nodes if x.nodes[c].excl]
        ctx.ensure("excl", x, not bad, what + " has a node in common with its original that either may write to")
        left = [c for c in x.nodes if c not in a["seen"] and c not in b["seen"] and not gone(x, c)]
        ctx.ensure("leak", x, not left, what + " leaves a node behind")


def pair_walk(ctx, s, c1, c2, want1, want2, what):
    out = []
    w = Walk(ctx.eng)
    for s1, a in w.tree(s.copy(), c1):
        w.same(s1, a["k"], want1[0], "of a tree and its copy, the first holds the keys")
        w.same(s1, a["v"], want1[1], "of a tree and its copy, the first holds the values")
        for s2, b in w.tree(s1, c2):
            w.same(s2, b["k"], want2[0], what + " holds the keys")
            w.same(s2, b["v"], want2[1], what + " holds the values")
            for i in (a, b):
                if not w.equal(s2, w.total(i["v"]), i["size"]) and s2.feasible():
                    w.fault("size", "after copying the length is not the number of entries", s2)
            out.append((s2, (a, b)))
    ctx.obligations += w.obligations
    for kind, msg, x in w.faults:
        if x.feasible():
            ctx.find(kind, msg, x)
    for m in w.unsure:
        ctx.unsure[m] = ctx.unsure.get(m, 0) + 1
    return out


def clone_tree(ctx, start):
    st, t = starting(ctx, start)
    for s, v in ctx.call(st, ctx.fn(CLONE), [Ptr(t.cell)]):
        both(ctx, s, t, s.new_cell(v), "a clone")


def root_of(ctx, st, t):
    return st.cells[t.cell].f[tree_fields(ctx.eng)["root"]].f[0]


def narrow(ctx, h, n, m=None):
    """A tree whose root has n children (and, where it matters, whose children hold m each)."""
    st, t = wide(ctx.eng, h)
    st.eq(st.orgs[t.root].n - n)
    if m is not None:
        for j in range(n):
            for s, k in st.kid(t.root, L.of(j)):
                s.eq(s.orgs[k].n - m)
                st = s
                break
    return st, t


def clone_node(ctx, h, n, m=None):
    """The body of Branch::clone against what the other analyses take it to do: a deep copy."""
    eng = ctx.eng
    st, t = narrow(ctx, h, n, m)
    if not st.alive():
        return
    cell = models.unwrap_handle(root_of(ctx, st, t)).n
    f = ctx.fn("<branch::Branch<K, V, C> as std::clone::Clone>::clone")
    for s, v in ctx.call(st, f, [Ptr(cell)]):
        c = s.new_cell(v)
        s.nodes[c] = NodeInfo(None, h, True)
        tc = s.new_cell(tree_agg(eng, t.N, some(root_ptr(eng, c))))
        both(ctx, s, t, tc, "a copied branch")
        held = [x for x in s.nodes if x != c and x != cell and not s.nodes[x].excl]
        if held:
            uses(ctx, s, t, tc)


def uses(ctx, s, t, tc):
    """A copy that has nodes in common with its original: nothing may write to those."""
    before = len(ctx.findings)
    s, k, P, Q = with_key(s, t)
    kc = s.new_cell(k)
    for x in s.copy().where(ge(Q - P - 1)):
        if x.alive():
            for y, v in ctx.call(x, ctx.fn(T + "get_mut"), [Ptr(tc), Ptr(kc)]):
                if v != NONE:
                    for z in ctx.eng.store(y, v.f[0], Val("N", "new")):
                        pass
            for y, v in ctx.call(x.copy(), ctx.fn(T + "remove"), [Ptr(tc), Ptr(kc)]):
                pass
    for y, v in ctx.call(s.copy(), ctx.fn(T + "insert"), [Ptr(tc), k, Val("N", "new")]):
        pass
    if len(ctx.findings) == before:
        ctx.unsure["a copied branch has nodes in common with its original"] = 1


def drop_tree(ctx, start):
    eng = ctx.eng
    st, t = starting(ctx, start)
    dropped(ctx, st, t.cell, tree_type(eng), "a tree")


def drop_node(ctx, h, n, m=None):
    """The bodies of Branch::drop and Leaf::drop: everything the node holds is dropped once."""
    eng = ctx.eng
    eng.drop_bodies = True
    st, t = narrow(ctx, h, n, m)
    if not st.alive():
        return
    for o in eng.drop_at(st, Ptr(t.cell), tree_type(eng), 0):
        if o.k == "panic":
            ctx.find("panic", "panic (%s) while dropping a tree" % (o.v[0],), o.st, o.v[1])
        if o.k != "ret" or not o.st.alive():
            continue
        ctx.outcomes += 1
        s = o.st
        for c in list(s.nodes):
            ctx.ensure("leak", s, s.nodes[c].freed, "dropping a tree leaves a node behind")


def drop_hollow(ctx, start):
    ctx.eng.drop_bodies = True
    drop_tree(ctx, start)


def length(ctx, start):
    eng = ctx.eng
    st, t = starting(ctx, start)
    for s, v in ctx.call(st, ctx.fn(T + "len"), [Ptr(t.cell)]):
        ctx.ensure("spec", s, isinstance(v, L) and eq(v - t.N), "len is not the number of entries")
        ctx.walk(s, t.cell, ([G(ZERO, t.N)], [G(ZERO, t.N)]))
    for s, v in ctx.call(st.copy(), ctx.fn(T + "is_empty"), [Ptr(t.cell)]):
        for c, want in ((ge(-t.N), True), (ge(t.N - 1), False)):
            for x in s.copy().where(c):
                if x.alive():
                    ctx.ensure("spec", x, v if want else v.neg(), "is_empty is wrong for a tree that is %sempty" % ("" if want else "not "))


def fresh_tree(ctx, how):
    st = fresh_state()
    name = T + "new" if how == "new" else "<PalmTree<K, V, C> as std::default::Default>::default"
    for s, v in ctx.call(st, ctx.fn(name), []):
        c = s.new_cell(v)
        ctx.walk(s, c, ([], []))
        for x, n in ctx.call(s.copy(), ctx.fn(T + "len"), [Ptr(c)]):
            ctx.ensure("spec", x, isinstance(n, L) and eq(n), "a new tree has a length")
        for x, b in ctx.call(s.copy(), ctx.fn(T + "is_empty"), [Ptr(c)]):
            ctx.ensure("spec", x, b, "a new tree is not empty")


def clone_cases(debug=True, shared=False, deep=False):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for k in kinds():
        out.append(Case("clone on %s%s" % (k, sfx), "C10", clone_tree, debug, shared, start=k))
    if not shared:
        for n in (1, 2, 3):
            out.append(Case("branch clone of %d leaves%s" % (n, sfx), "C10", clone_node, debug, shared, unroll=8, cost=30, h=1, n=n, m=2 if n == 2 else 1))
        for n in (1, 2):
            out.append(Case("branch clone of %d branches%s" % (n, sfx), "C10", clone_node, debug, shared, unroll=8, cost=50, h=2, n=n, m=1))
    return out


def drop_cases(debug=True, shared=False):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for k in kinds():
        out.append(Case("drop on %s%s" % (k, sfx), "C13", drop_tree, debug, shared, start=k))
    if not shared:
        for k in ("hollow", "hollow+"):
            out.append(Case("drop bodies on %s%s" % (k, sfx), "C13", drop_hollow, debug, shared, unroll=8, start=k))
        for n in (1, 2, 3):
            out.append(Case("branch drop of %d leaves%s" % (n, sfx), "C13", drop_node, debug, shared, unroll=8, cost=30, h=1, n=n))
        for n in (1, 2):
            out.append(Case("branch drop of %d branches%s" % (n, sfx), "C13", drop_node, debug, shared, unroll=8, cost=50, h=2, n=n, m=2))
    return out


def length_cases(debug=True, shared=False):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for k in kinds():
        out.append(Case("len on %s%s" % (k, sfx), "C04", length, debug, shared, start=k))
    for how in ("new", "default"):
        out.append(Case("construct %s%s" % (how, sfx), "C04", fresh_tree, debug, shared, how=how))
    return out


def all_cases(debug=True, shared=False):
    return clone_cases(debug, shared) + drop_cases(debug, shared) + length_cases(debug, shared)
