"""The operations, and what each has to do."""
from .cases import Case
from .dom import *
from .tree import *
from . import models
from .models import some, NONE, find_arr
from .interp import add_index

T = "PalmTree::<K, V, C>::"
HEIGHTS = (1, 2, 3)


def starting(ctx, kind):
    """(state, tree) to begin with."""
    eng = ctx.eng
    if kind == "new":
        return empty(eng)
    if kind == "hollow":
        return hollow(eng, False)
    if kind == "hollow+":
        return hollow(eng, True)
    return wide(eng, kind)


def kinds(heights=HEIGHTS):
    return ["new", "hollow", "hollow+"] + list(heights)


def with_key(st, t, name="k"):
    st.add_key(name)
    P, Q = st.keys[name]
    st.ge(t.N - Q)
    k = Key("N", name)
    return st, k, P, Q


def G(a, b):
    return (b - a, "G", a)


def one(x):
    return (ONE, "1", x)


# ---------------------------------------------------------------- C01

def lookup(ctx, start, fn):
    eng = ctx.eng
    st, t = starting(ctx, start)
    st, k, P, Q = with_key(st, t)
    kc = st.new_cell(k)
    mut = fn == "get_mut"
    split = [ge(Q - P - 1), ge(P - Q)] if fn == "get_linear" else [TRUE]
    for c in split:
        for s0 in st.copy().where(c):
            if s0.alive():
                for s, v in ctx.call(s0, ctx.fn(T + fn), [Ptr(t.cell), Ptr(kc)]):
                    found_or_not(ctx, s, t, v, P, Q, mut)


def found_or_not(ctx, s, t, v, P, Q, mut, opt=True):
    eng = ctx.eng
    if opt and v == NONE:
        ctx.ensure("spec", s, ge(P - Q), "a key the tree holds is not found")
        ctx.walk(s, t.cell, ([G(ZERO, t.N)], [G(ZERO, t.N)]))
        return
    p = v.f[0] if opt else v
    ctx.ensure("spec", s, ge(Q - P - 1), "a key the tree does not hold is found")
    for s2, x in eng.load(s, p):
        ctx.ensure("spec", s2, isinstance(x, Val) and x.k == "G" and eq(x.a - P), "the value of another entry is returned")
        if mut:
            for s3 in eng.store(s2, p, Val("N", "new")):
                ctx.walk(s3, t.cell, ([G(ZERO, t.N)], [G(ZERO, P), one(Val("N", "new")), G(P + 1, t.N)]))
        else:
            ctx.walk(s2, t.cell, ([G(ZERO, t.N)], [G(ZERO, t.N)]))


def index(ctx, start, mut):
    st, t = starting(ctx, start)
    st, k, P, Q = with_key(st, t)
    kc = st.new_cell(k)
    st.ge(Q - P - 1)
    if st.dead() or not st.alive():
        return
    name = "<PalmTree<K, V, C> as std::ops::Index%s<&K>>::index%s" % (("Mut", "_mut") if mut else ("", ""))
    key = [x for x in ctx.prog.bodies if "as std::ops::Index%s<&" % ("Mut" if mut else "") in x and x.startswith("crate::<PalmTree")]
    for s, v in ctx.call(st, key[0], [Ptr(t.cell), Ptr(kc)]):
        found_or_not(ctx, s, t, v, P, Q, mut, False)


def index_absent(ctx, start, mut):
    """Indexing a key the tree does not hold: there is nothing to return."""
    st, t = starting(ctx, start)
    st, k, P, Q = with_key(st, t)
    kc = st.new_cell(k)
    st.ge(P - Q)
    if st.dead() or not st.alive():
        return
    key = [x for x in ctx.prog.bodies if "as std::ops::Index%s<&" % ("Mut" if mut else "") in x and x.startswith("crate::<PalmTree")]
    for s, v in ctx.call(st, key[0], [Ptr(t.cell), Ptr(kc)], panics=None):
        ctx.ensure("spec", s, False, "indexing a key the tree does not hold returns something")
    ctx.obligations += 1


def lookups(debug=True, shared=False):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for fn in ("get", "get_linear", "get_mut"):
        for k in kinds():
            out.append(Case("%s on %s%s" % (fn, k, sfx), "C01", lookup, debug, shared, start=k, fn=fn))
    for mut in (False, True):
        for k in HEIGHTS:
            out.append(Case("index%s on %s%s" % ("_mut" if mut else "", k, sfx), "C01", index, debug, shared, start=k, mut=mut))
        for k in kinds():
            out.append(Case("index%s of an absent key on %s%s" % ("_mut" if mut else "", k, sfx), "C01", index_absent, debug, shared, start=k, mut=mut))
    return out



# ---------------------------------------------------------------- C02

def after_insert(ctx, s, t, k, P, Q, val):
    """The tree after mapping k to val."""
    for here in (True, False):
        for x in s.copy().where(ge(Q - P - 1) if here else ge(P - Q)):
            if not x.alive():
                continue
            if here:
                ctx.walk(x, t.cell, ([G(ZERO, t.N)], [G(ZERO, P), one(val), G(P + 1, t.N)]), alt={k: P})
            else:
                ctx.walk(x, t.cell, ([G(ZERO, P), one(k), G(P, t.N)], [G(ZERO, P), one(val), G(P, t.N)]))


def old_value(ctx, s, v, P, Q, what="the value handed back"):
    """v: Option of what was stored before."""
    if v == NONE:
        ctx.ensure("spec", s, ge(P - Q), what + " is missing")
    else:
        ctx.ensure("spec", s, ge(Q - P - 1), what + " was never stored")
        x = v.f[0]
        ctx.ensure("spec", s, isinstance(x, Val) and x.k == "G" and eq(x.a - P), what + " is another entry's")


def insert(ctx, start, fn, told=0):
    st, t = starting(ctx, start)
    st, k, P, Q = with_key(st, t)
    if told:
        # as an insertion that starts over may find it
        st.ge(P - t.N)
        top = Key("S", t.root, st.orgs[t.root].n - 1)
        cs = [s for s in st.copy().where(st.lt(top, k)) if s.alive()]
        if len(cs) != 1:
            raise Unsupported("a key above every other")
        st = announced(ctx.eng, cs[0], t, k, told)
    val = Val("N", "new")
    old = set(st.nodes)
    ctx.eng.again = lambda s, key, args: retried(ctx, s, key, args, t, k, val, old)
    for s, v in ctx.call(st, ctx.fn(T + fn), [Ptr(t.cell), k, val]):
        old_value(ctx, s, v, P, Q)
        after_insert(ctx, s, t, k, P, Q, val)


def retried(ctx, st, key, args, t, k, val, old):
    """An insertion starts over (a function's last act is to call itself on what it was called on). If by then the tree is a sound
    one with the entries it had, and has a node it did not have, what it does is what it does to any such tree, and an end is in
    sight. If not, it has to be followed."""
    if len(args) != 3 or args[1] != k or args[2] != val:
        return False
    infos = ctx.walk(st.copy(), t.cell, ([G(ZERO, t.N)], [G(ZERO, t.N)]), ask=True, edge=k)
    if infos is not None and all(any(c not in old for c in i["seen"]) for s, i in infos):
        return True
    if sum(fr.key == key for fr, _ in ctx.eng.stack) > 5:
        ctx.eng.note("an insertion is tried again and again on a tree that is not sound by then")
        return True
    return False


def inserts(debug=True, shared=False, heights=HEIGHTS):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for fn in ("insert", "insert_recursive"):
        for k in kinds(heights):
            out.append(Case("%s on %s%s" % (fn, k, sfx), "C02", insert, debug, shared, start=k, fn=fn))
            for told in range(1, k if fn == "insert_recursive" and isinstance(k, int) and not shared else 1):
                out.append(Case("%s on %s, retried %d down%s" % (fn, k, told, sfx), "C02", insert, debug, shared, start=k, fn=fn, told=told))
    return out


# ---------------------------------------------------------------- C03

def after_remove(ctx, s, t, v, P, what):
    """v: Option<(K, V)>, which must be entry P."""
    N = t.N
    if v == NONE:
        ctx.walk(s, t.cell, ([G(ZERO, N)], [G(ZERO, N)]))
        return
    pair = v.f[0] if v.v == 1 and len(v.f) == 1 else v
    kk, vv = pair.f
    ctx.ensure("spec", s, isinstance(kk, Key) and kk.k == "G" and eq(kk.a - P), "the key of another entry is returned by " + what)
    ctx.ensure("spec", s, isinstance(vv, Val) and vv.k == "G" and eq(vv.a - P), "the value of another entry is returned by " + what)
    ctx.walk(s, t.cell, ([G(ZERO, P), G(P + 1, N)], [G(ZERO, P), G(P + 1, N)]))


def remove(ctx, start, fn):
    st, t = starting(ctx, start)
    if fn == "remove":
        st, k, P, Q = with_key(st, t)
        args = [Ptr(t.cell), Ptr(st.new_cell(k))]
    else:
        args = [Ptr(t.cell)]
        P = ZERO if fn == "remove_lowest" else t.N - 1
    for s, v in ctx.call(st, ctx.fn(T + fn), args):
        if v == NONE:
            ctx.ensure("spec", s, ge(P - Q) if fn == "remove" else ge(-t.N), "an entry the tree holds is not removed")
        elif fn == "remove":
            ctx.ensure("spec", s, ge(Q - P - 1), "a key the tree does not hold is removed")
        else:
            ctx.ensure("spec", s, ge(t.N - 1), "an entry is removed from an empty tree")
        after_remove(ctx, s, t, v, P, fn)


def removes(debug=True, shared=False, heights=HEIGHTS):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for fn in ("remove", "remove_lowest", "remove_highest"):
        for k in kinds(heights):
            out.append(Case("%s on %s%s" % (fn, k, sfx), "C03", remove, debug, shared, start=k, fn=fn))
    return out


# ---------------------------------------------------------------- C21

def entry(ctx, start, occupied, vacant):
    """entry(key), then a method of the handle."""
    eng = ctx.eng
    st, t = starting(ctx, start)
    st, k, P, Q = with_key(st, t)
    N = t.N
    val = Val("N", "new")
    for s, e in ctx.call(st, ctx.fn(T + "entry"), [Ptr(t.cell), k]):
        y = eng.ty(ctx.prog.bodies[ctx.fn(T + "entry")]["locals"][0])
        name = y["variants"][e.v]["name"]
        h = e.f[0]
        if name == "Occupied":
            if not ctx.ensure("spec", s, ge(Q - P - 1), "an entry is occupied for a key the tree does not hold"):
                continue
            m = ctx.fn("entry::OccupiedEntry::<'a, K, V, C>::" + occupied)
            hc = s.new_cell(h)
            byval = occupied in ("remove", "remove_entry", "into_mut")
            args = [h if byval else Ptr(hc)] + ([val] if occupied == "insert" else [])
            for s2, v in ctx.call(s, m, args):
                if occupied in ("get", "key", "get_mut", "into_mut"):
                    for s3, x in eng.load(s2, v):
                        want = Key if occupied == "key" else Val
                        ctx.ensure("spec", s3, isinstance(x, want) and (x.k == "G" and eq(x.a - P) or x == k), "an occupied entry shows another entry's " +
                                   ("key" if occupied == "key" else "value"))
                        if occupied in ("get_mut", "into_mut"):
                            for s4 in eng.store(s3, v, val):
                                ctx.walk(s4, t.cell, ([G(ZERO, N)], [G(ZERO, P), one(val), G(P + 1, N)]), alt={k: P})
                        else:
                            ctx.walk(s3, t.cell, ([G(ZERO, N)], [G(ZERO, N)]), alt={k: P})
                elif occupied == "insert":
                    ctx.ensure("spec", s2, isinstance(v, Val) and v.k == "G" and eq(v.a - P), "an occupied entry hands back another entry's value")
                    after_insert(ctx, s2, t, k, P, Q, val)
                else:
                    pair = v if occupied == "remove_entry" else Agg(0, (Key("G", P), v))
                    after_remove(ctx, s2, t, pair, P, occupied)
        else:
            if not ctx.ensure("spec", s, ge(P - Q), "an entry is vacant for a key the tree holds"):
                continue
            m = ctx.fn("entry::VacantEntry::<'a, K, V, C>::" + vacant)
            hc = s.new_cell(h)
            args = [Ptr(hc) if vacant == "key" else h] + ([val] if vacant == "insert" else [])
            for s2, v in ctx.call(s, m, args):
                if vacant == "insert":
                    for s3, x in eng.load(s2, v):
                        ctx.ensure("spec", s3, x == val, "inserting into a vacant entry lends another value")
                        late = Val("N", "later")
                        for s4 in eng.store(s3, v, late):
                            after_insert(ctx, s4, t, k, P, Q, late)
                else:
                    for s3, x in (eng.load(s2, v) if vacant == "key" else [(s2, v)]):
                        ctx.ensure("spec", s3, x == k, "a vacant entry shows another key")
                        ctx.walk(s3, t.cell, ([G(ZERO, N)], [G(ZERO, N)]))


def entries(debug=True, shared=False, heights=HEIGHTS):
    out = []
    sfx = ("" if debug else " release") + (" shared" if shared else "")
    for i, o in enumerate(("get", "key", "get_mut", "into_mut", "insert", "remove", "remove_entry")):
        v = ("key", "into_key", "insert")[min(i, 2)] if i < 3 else "key"
        for k in kinds(heights):
            out.append(Case("entry %s/%s on %s%s" % (o, v, k, sfx), "C21", entry, debug, shared, start=k, occupied=o, vacant=v))
    return out


def all_cases(debug=True, shared=False):
    return lookups(debug, shared) + inserts(debug, shared) + removes(debug, shared) + entries(debug, shared)
