"""Bulk loading: an ascending input of symbolic length is built into a tree.

The input's entries are the positions 0, 1, 2, ...; finished nodes are summarised, once
checked, as children of a symbolic branch, so that branches and leaves of any width
and inputs of any length are covered by one loop invariant."""
from .cases import Case
from .dom import *
from .interp import Out
from .tree import *
from . import models
from .models import NONE, some, find_arr, node_fields
from .ops import T, G, one

BRANCH, LEAF = models.BRANCH, models.LEAF


class Folder:
    def __init__(self, ctx):
        self.ctx, self.eng = ctx, ctx.eng

    def __call__(self, st, fr=None):
        """Summarise the finished children of every branch under construction."""
        for cell, path, t in self.places(st):
            v = get(st.cells.get(cell), path)
            if isinstance(v, Agg):
                w = self.settle(st, v, t)
                if w is not v:
                    st.cells[cell] = put(st.cells[cell], path, w)
        self.collect(st)
        name_nodes(st)

    def places(self, st):
        """Where nodes under construction are: locals and boxed nodes that no other node holds."""
        out = []
        held = set()
        for c, n in st.nodes.items():
            if n.lv:
                held |= self.children(st.cells.get(c))
        for fr, _ in self.eng.stack:
            for i, c in enumerate(fr.cells):
                y = self.eng.ty(fr.info.locals[i])
                if y["k"] == "adt" and y["path"] in (BRANCH, LEAF):
                    # not what is left in a variable after its node was moved out
                    if y["path"] == LEAF or not self.children(st.cells.get(c)) & held:
                        out.append((c, (), y["path"]))
        for c, n in sorted(st.nodes.items()):
            if c not in held and not n.freed:
                out.append((c, (), BRANCH if n.lv else LEAF))
        return out

    def children(self, v):
        """The nodes a branch holds one by one."""
        out = set()
        a = find_arr(v.f[self.nf(BRANCH)["kids"]]) if isinstance(v, Agg) else None
        for seg in a.s if a is not None else ():
            h = unwrap_handle(seg[2]) if seg[1] == "1" else None
            if h is not None and not isinstance(h.n, tuple):
                out.add(h.n)
        return out

    def nf(self, path):
        return node_fields(self.eng, models.node_types(self.eng)[path])

    def settle(self, st, v, path):
        nf = self.nf(path)
        if path == LEAF:
            return self.settle_leaf(st, v, nf)
        ak, ac = find_arr(v.f[nf["keys"]]), find_arr(v.f[nf["kids"]])
        if ak is None or ac is None:
            return v
        segs = [s for s in ac.s if s[1] != "U"]
        keys = [s for s in ak.s if s[1] != "U"]
        if not any(s[1] == "1" for s in segs) or not all(s[1] in "1C" for s in segs):
            return v
        if len(segs) != len(keys):
            return v
        done = None     # (origin, count)
        for i, (c, k) in enumerate(zip(segs, keys)):
            if c[1] == "C":
                if i or k[1] != "S" or k[2] != c[2] or not st.qeq(k[3] - c[3]) or not _zero(st.sys.red(c[3])):
                    return v
                done = (c[2], c[0])
                continue
            h = unwrap_handle(c[2])
            if h is None or isinstance(h.n, tuple):
                break
            key = self.eng.seg_elem(st, Arr((), ZERO, "K", None), k, ZERO)
            more = self.absorb(st, done, h.n, key)
            if more is None:
                break
            done = more
        else:
            i += 1
        if done is None:
            return v
        F, n = done
        rest = L.of(n)
        for x in segs[i:]:
            rest = rest + x[0]
        kids = ((n, "C", F, ZERO),) + tuple(segs[i:]) + ((ac.cap - rest, "U", None, None),)
        ks = ((n, "S", F, ZERO),) + tuple(keys[i:]) + ((ak.cap - rest, "U", None, None),)
        f = list(v.f)
        f[nf["keys"]] = put_arr(f[nf["keys"]], Arr(ks, ak.cap, ak.e, ak.ety))
        f[nf["kids"]] = put_arr(f[nf["kids"]], Arr(kids, ac.cap, ac.e, ac.ety))
        return Agg(v.v, tuple(f))

    def settle_leaf(self, st, v, nf):
        f = list(v.f)
        ch = False
        for k in ("keys", "vals"):
            a = find_arr(f[nf[k]])
            if a is None:
                continue
            acc = []
            for seg in a.s:
                if seg[1] == "1" and isinstance(seg[2], (Key, Val)) and seg[2].k == "G":
                    seg = (ONE, "G", seg[2].a, None)
                if acc and seg[1] == "G" and acc[-1][1] == "G" and st.qeq(acc[-1][2] + acc[-1][0] - seg[2]):
                    acc[-1] = (acc[-1][0] + seg[0], "G", acc[-1][2], None)
                    ch = True
                    continue
                acc.append(seg)
            acc = [s for s in acc if st.sys.red(s[0]).const() != 0]
            if tuple(acc) != tuple(a.s):
                ch = True
                f[nf[k]] = put_arr(f[nf[k]], Arr(tuple(acc), a.cap, a.e, a.ety))
        return Agg(v.v, tuple(f)) if ch else v

    def absorb(self, st, done, cell, key):
        """Check a finished child and make it the next child of a symbolic branch."""
        n = st.nodes.get(cell)
        if n is None or n.freed:
            return None
        v = st.cells[cell]
        if not isinstance(v, Agg):
            return None
        w = self.settle(st, v, BRANCH if n.lv else LEAF)
        st.cells[cell] = w
        walk = Walk(self.eng)
        parts = walk.node(st.copy(), cell)
        parts = [p for p in parts if p[0].alive()]
        if walk.faults or walk.unsure or len(parts) != 1:
            return None
        s, i = parts[0]
        if len(i["k"]) != 1 or len(i["v"]) != 1 or i["k"][0][1] != "G" or i["v"][0][1] != "G":
            return None
        a, ln = i["k"][0][2], i["k"][0][0]
        if not (s.qeq(i["v"][0][2] - a) and s.qeq(i["v"][0][0] - ln)):
            return None
        hi = Key("G", a + ln - 1)
        c = s.le(hi, key)
        if c is None or not s.prove_cond(c):
            return None
        c = s.lt(key, Key("G", a + ln))
        if c is None or not s.prove_cond(c):
            return None
        if i["lv"] > 0 and not s.same_key(i["last"], key):
            return None
        exact = s.same_key(key, hi)
        if done is not None and st.orgs[done[0]].exact and not exact:
            return None
        self.ctx.obligations += 6
        # what the walk learnt holds here too: it had one outcome only
        take(st, s)
        lv = i["lv"] + 1
        if done is None:
            F = self.fresh_id(st, lv)
            keep, st.nid = st.nid, F
            m = fresh("wf")
            e = fresh("ef")
            st.new_origin(lv, a, e, m)
            st.nid = keep
            st.orgs[F].exact = exact
            j = ZERO
        else:
            F, j = done
            if st.orgs[F].lv != lv:
                return None
            if not st.qeq(st.cut(F, j) - a):
                return None
        o = st.orgs[F]
        st.ge(o.n - j - 1)
        c = st.cut(F, j + 1)
        st.eq(c - a - ln)
        o = st._upd(F)
        end = st.sys.red(a + ln)
        o.cuts = tuple((ix, x) for ix, x in o.cuts if _zero(ix) or ix == o.n) + ((st.sys.red(j + 1), end),)
        del st.cells[cell]
        del st.nodes[cell]
        return (F, j + 1)

    def fresh_id(self, st, lv):
        i = FOLDED * lv
        while i in st.orgs:
            i += 1
        return i

    def collect(self, st):
        """Forget symbolic branches that became children of others."""
        used = set()
        for v in st.cells.values():
            orgs_in(v, used)
        for oid in [o for o in st.orgs if o >= FOLDED and o not in used]:
            if not st.orgs[oid].kids:
                del st.orgs[oid]
        # name the others by where they are first met
        ren, count = {}, {}
        for c in sorted(st.cells):
            ids = []
            orgs_in(st.cells[c], ids)
            for o in ids:
                if o >= FOLDED and o not in ren:
                    lv = st.orgs[o].lv
                    ren[o] = FOLDED * lv + count.get(lv, 0)
                    count[lv] = count.get(lv, 0) + 1
        if any(a != b for a, b in ren.items()):
            for c, v in st.cells.items():
                w = rename_orgs(v, ren)
                if w is not v:
                    st.cells[c] = w
            orgs = {}
            for o, g in st.orgs.items():
                if ren.get(o, o) != o:
                    g = g.copy()
                    g.id = ren[o]
                orgs[ren.get(o, o)] = g
            st.orgs = dict(sorted(orgs.items()))


def _zero(e):
    return isinstance(e, L) and e.const() == 0


BOXED = 1000000     # boxed nodes are numbered from here, in the order they are met


def name_nodes(st):
    ren = {}
    for c in sorted(st.cells):
        if c not in st.nodes:
            nodes_in(st.cells[c], st, ren)
    k = len(ren)
    for c in [c for c, n in st.nodes.items() if n.freed and c not in ren and c not in st.mat.values()]:
        del st.nodes[c]
        st.cells.pop(c, None)
    for c in sorted(st.nodes):
        if c not in ren:
            ren[c] = BOXED + k
            k += 1
    if all(a == b for a, b in ren.items()):
        return
    old = st.cells
    st.cells = {ren.get(c, c): rename_cells(v, ren) for c, v in old.items()}
    st.nodes = {ren.get(c, c): n.but(clean=st.cells[ren.get(c, c)]) if n.clean is not None and n.clean is old.get(c) else n for c, n in st.nodes.items()}
    st.mat = {o: ren.get(c, c) for o, c in st.mat.items()}


def nodes_in(v, st, ren):
    if isinstance(v, Agg):
        for x in v.f:
            nodes_in(x, st, ren)
    elif isinstance(v, Arr):
        for seg in v.s:
            if seg[1] == "1":
                nodes_in(seg[2], st, ren)
    elif isinstance(v, Seq):
        for x in v.items:
            nodes_in(x, st, ren)
    else:
        c = v.n if isinstance(v, Handle) else v.c if isinstance(v, Ptr) else None
        if c is not None and not isinstance(c, tuple) and c in st.nodes and c not in ren:
            ren[c] = BOXED + len(ren)
            nodes_in(st.cells.get(c), st, ren)


def rename_cells(v, ren):
    if isinstance(v, Agg):
        f = tuple(rename_cells(x, ren) for x in v.f)
        return v if all(a is b for a, b in zip(f, v.f)) else Agg(v.v, f)
    if isinstance(v, Arr):
        out = tuple((n, k, rename_cells(x, ren) if k == "1" else x, o) for n, k, x, o in v.s)
        return v if all(a[2] is b[2] for a, b in zip(out, v.s)) else Arr(out, v.cap, v.e, v.ety)
    if isinstance(v, Seq):
        f = tuple(rename_cells(x, ren) for x in v.items)
        return v if all(a is b for a, b in zip(f, v.items)) else Seq(f, v.cap)
    if isinstance(v, Handle) and not isinstance(v.n, tuple) and ren.get(v.n, v.n) != v.n:
        return Handle(ren[v.n])
    if isinstance(v, Ptr) and ren.get(v.c, v.c) != v.c:
        return Ptr(ren[v.c], v.p, v.m)
    if isinstance(v, SliceIt):
        b = rename_cells(v.base, ren)
        return v if b is v.base else SliceIt(b, v.i, v.end, v.mut)
    return v


def rename_orgs(v, ren):
    if isinstance(v, Agg):
        f = tuple(rename_orgs(x, ren) for x in v.f)
        return v if all(a is b for a, b in zip(f, v.f)) else Agg(v.v, f)
    if isinstance(v, Arr):
        ch, out = False, []
        for seg in v.s:
            n, k, x, o = seg
            y = ren.get(x, x) if k in ("S", "C") else rename_orgs(x, ren) if k == "1" else x
            ch = ch or y is not x
            out.append((n, k, y, o))
        return Arr(tuple(out), v.cap, v.e, v.ety) if ch else v
    if isinstance(v, Seq):
        f = tuple(rename_orgs(x, ren) for x in v.items)
        return v if all(a is b for a, b in zip(f, v.items)) else Seq(f, v.cap)
    if isinstance(v, Key) and v.k == "S" and v.a in ren:
        return Key("S", ren[v.a], v.b)
    if isinstance(v, Handle) and isinstance(v.n, tuple) and v.n[1] in ren:
        return Handle((v.n[0], ren[v.n[1]], v.n[2]))
    return v


def orgs_in(v, out):
    if isinstance(out, list):
        for seg in orgs_of(v):
            out.append(seg)
    else:
        out.update(orgs_of(v))


def orgs_of(v):
    out = []
    _orgs(v, out)
    return out


def _orgs(v, out):
    if isinstance(v, Agg):
        for x in v.f:
            _orgs(x, out)
    elif isinstance(v, Arr):
        for seg in v.s:
            if seg[1] in "SC":
                out.append(seg[2])
            elif seg[1] == "1":
                _orgs(seg[2], out)
    elif isinstance(v, Seq):
        for x in v.items:
            _orgs(x, out)
    elif isinstance(v, Key) and v.k == "S":
        out.append(v.a)
    elif isinstance(v, Handle) and isinstance(v.n, tuple):
        out.append(v.n[1])


def take(st, s):
    st.sys, st.pend, st._satkey = s.sys, s.pend, s._satkey
    st.orgs, st.keys, st.nid = s.orgs, s.keys, s.nid


def get(v, path):
    for p in path:
        v = v.f[p]
    return v


def put(v, path, x):
    if not path:
        return x
    f = list(v.f)
    f[path[0]] = put(f[path[0]], path[1:], x)
    return Agg(v.v, tuple(f))


def put_arr(v, a):
    p = models.arr_path(v)
    return put(v, p, a)


def given(ctx, bad):
    """The caller's iterator: entries 0 .. n-1 in order, then (bad) one that is not above the last."""
    eng = ctx.eng
    N = L.sym("Nin")

    def user_next(eng, st, arg, depth):
        out = models.user_panic(eng, st, "Iterator::next")
        for s, v in eng.load(st, arg):
            if not (isinstance(v, Agg) and isinstance(v.f[0], Opq)):
                raise Unsupported("iterator %r" % (v,))
            pos, late = v.f[1], v.f[2]
            if late == TRUE:
                out.append(Out(s, "ret", NONE))
                continue
            more, over = s.branch(ge(N - 1 - pos))
            for x in more:
                if x.alive():
                    for y in eng.store(x, arg, Agg(0, (v.f[0], pos + 1, FALSE))):
                        out.append(Out(y, "ret", some(Agg(0, (Key("G", pos), Val("G", pos))))))
            for x in over:
                if x.alive():
                    for y in eng.store(x, arg, Agg(0, (v.f[0], pos, TRUE))):
                        if bad:
                            out.append(Out(y, "ret", some(Agg(0, (Key("N", "bad"), Val("N", "bad"))))))
                        else:
                            out.append(Out(y, "ret", NONE))
        return out

    def over(c):
        if c["path"] == "std::iter::Iterator::next" and c["kind"] in ("unresolved", "virtual"):
            return lambda eng, st, args, c, t, depth: user_next(eng, st, args[0], depth)
        if c["path"] == "std::iter::IntoIterator::into_iter" and c["kind"] in ("unresolved", "virtual"):
            return lambda eng, st, args, c, t, depth: [Out(st, "ret", args[0])]
        if c["path"] == "std::iter::Iterator::size_hint" and c["kind"] in ("unresolved", "virtual"):
            return size_hint
        return None

    def size_hint(eng, st, args, c, t, depth):
        n = fresh("hint")
        st.ge(n)
        return [Out(st, "ret", Agg(0, (n, some(n))))]
    eng.override = over
    return N


def load(ctx, levels, bad=False, small=0):
    eng = ctx.eng
    N = given(ctx, bad)
    eng.fold = None if small else Folder(ctx)
    eng.max_vec = levels
    eng.opaque_drop = False
    st = fresh_state()
    st.ge(N - (1 if bad else 0))
    st.ge(L.of(BIG) - N)
    pin(st, N)
    if small:
        st.eq(LC - small)
        st.eq(BC - small)
    if bad:
        P, Q = st.add_key("bad")
        st.ge(N - 1 - P)
    key = [k for k in ctx.prog.bodies if k.startswith("crate::PalmTree::<K, V, C>::load<K,V,C,I>")][0]
    user = Agg(0, (Opq("user"), ZERO, FALSE))
    for s, v in ctx.call(st, key, [user], panics=None if bad else "panic"):
        if bad:
            if s.feasible():
                ctx.find("spec", "load accepts an input that is not ascending in a debug build", s)
            continue
        cell = s.new_cell(v)
        ctx.walk(s, cell, ([G(ZERO, N)], [G(ZERO, N)]), what="after loading the tree holds")


def load_cases(debug=True, shared=False, levels=2):
    sfx = "" if debug else " release"
    out = [Case("load, up to %d levels of branches of branches%s" % (levels, sfx), "C09", load, debug, False, cost=100, levels=levels, limit=2000000, seconds=20 + 25 * levels)]
    if debug:
        out.append(Case("load of a misordered input" + sfx, "C09", load, debug, False, cost=100, levels=min(levels, 2), bad=True, limit=2000000, seconds=20 + 25 * levels))
    for c in out:
        c.small = ({"small": 4}, 140)
    return out


def all_cases(debug=True, shared=False):
    return load_cases(debug, shared)
