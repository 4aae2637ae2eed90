"""Operations built from other operations: merging, collecting, comparing, hashing, formatting.

The operations they are built from are replaced by what the other checks show them to do
(trees become opaque sequences of entries in ascending order); what is left is interpreted
from the MIR. Loops over entries run to a fixpoint over the finitely many situations the
look-ahead of the code can be in, so nothing bounds the number of entries."""
from .cases import Case, Missing
from .dom import *
from .interp import Out
from .tree import *
from . import models
from .models import NONE, some, ret
from .ops import T

KINDS = ("new", "hollow", "full")
OWNED = "crate::iter::owned::OwnedIter::"
SELF_MERGE = "crate::PalmTree::<K, V, C>::"


# ---------------------------------------------------------------- entries of opaque trees

class World:
    """What the trees of a case hold, and what the code has to do with it."""

    def __init__(self, ctx, mode, kinds, **kw):
        self.ctx, self.mode, self.kinds = ctx, mode, kinds
        self.__dict__.update(kw)
        eng = ctx.eng
        eng.override = self.override
        eng.world = self
        eng.opaque_drop = True
        self.eng = eng
        self.N = {}

    # a state's ghost: hook["src"][X] = (open, queue of drawn tokens, last token)
    def start(self):
        st = fresh_state()
        src = {}
        for x, k in self.kinds.items():
            self.N[x] = ZERO if k in ("new", "hollow") else L.sym("N" + x)
            if k == "full":
                st.ge(self.N[x] - 1)
            src[x] = (k == "full", (), None, k == "full")
        st.hook = {"src": tuple(sorted(src.items())), "tok": 0, "rel": frozenset(), "pend": None, "ins": False, "over": False, "loaded": False, "trace": ()}
        return st

    def tree(self, x):
        k = self.kinds[x]
        return tree_agg(self.eng, self.N[x], NONE if k == "new" else some(Opq("root", x)))

    def put(self, st, **kw):
        st.hook = {**st.hook, **kw}

    def src(self, st, x):
        return dict(st.hook["src"])[x]

    def set_src(self, st, x, v):
        d = dict(st.hook["src"])
        d[x] = v
        self.put(st, src=tuple(sorted(d.items())))

    def find(self, kind, msg, st):
        self.ctx.find(kind, msg, st, site=self.where(), taint=False)

    def where(self):
        for fr, sp in reversed(self.eng.stack):
            if fr.info.b["local"]:
                return "%s (%s)" % (fr.key.replace("crate::", "").split("<K,V,C")[0], sp.replace("/repo/", ""))
        return self.ctx.case.name

    # -------------------------------------------------- drawing
    def draw(self, st, x, owned):
        """The next entry of a sequence: [(state, Option value)]"""
        opened, queue, last, first = self.src(st, x)
        out = []
        if not opened:
            return [Out(st, "ret", NONE)]
        if self.mode == "visit":
            return self.draw_plain(st, x, queue, last, first)
        if not first:
            s = st.copy()
            self.set_src(s, x, (False, queue, last, False))
            out.append(Out(s, "ret", NONE))
        n = st.hook["tok"]
        t = "%s%d" % (x, n)
        s = st
        rel = s.hook["rel"]
        if last is not None:
            rel = closed(rel | {(last, t, "<")})
        self.set_src(s, x, (True, queue + (t,), t, False))
        self.put(s, tok=n + 1, rel=rel)
        k, v = Key("N", t), Val("N", t)
        if not owned:
            k, v = Ptr(s.new_cell(k)), Ptr(s.new_cell(v))
        out.append(Out(s, "ret", some(Agg(0, (k, v)))))
        return out

    def draw_plain(self, st, x, queue, last, first):
        out = []
        if queue and self.formats:
            self.find("spec", "some entries are left out of the formatted map", st)
            return []
        if not first:
            s = st.copy()
            self.set_src(s, x, (False, (), None, False))
            out.append(Out(s, "ret", NONE))
        self.set_src(st, x, (True, ("e",), None, False))
        k, v = self.ref_cells(st, Key("N", "e"), Val("N", "e"))
        out.append(Out(st, "ret", some(Agg(0, (k, v)))))
        return out

    # -------------------------------------------------- what must come out
    def emitted(self, st, e):
        """The union hands out an entry: is it the right one? [states]"""
        k, v = e.f
        if isinstance(k, Ptr) or isinstance(v, Ptr):
            raise Unsupported("a borrowed entry")
        if not isinstance(k, Key) or not isinstance(v, Val):
            raise Unsupported("entry %r" % (e,))
        if k.a != v.a:
            self.find("spec", "a key comes out with another entry's value", st)
            return []
        x = k.a[0]
        opened, q, last, first = self.src(st, x)
        if not q or q[0] != k.a:
            if k.a in q:
                self.find("spec", "an entry is passed over", st)
            else:
                self.find("spec", "an entry comes out that was handed out or given up before", st)
            return []
        self.set_src(st, x, (opened, q[1:], last, first))
        out = [st]
        for y in self.kinds:
            if y == x:
                continue
            nxt = []
            for s in out:
                opened, q, last, first = self.src(s, y)
                if not q:
                    if opened:
                        self.find("spec", "an entry comes out although the other side may hold a lower one", s)
                    else:
                        nxt.append(s)
                    continue
                for s2, c in self.order(s, k.a, q[0]):
                    if c > 0:
                        self.find("order", "an entry comes out before a lower one of the other side", s2)
                    elif c == 0:
                        if self.bias != x:
                            self.find("spec", "of two entries with one key the wrong one comes out", s2)
                        else:
                            self.set_src(s2, y, (opened, q[1:], last, first))
                            nxt.append(s2)
                    else:
                        nxt.append(s2)
            out = nxt
        return out

    def ended(self, st):
        """The union says it is over."""
        for x in self.kinds:
            opened, q, last, first = self.src(st, x)
            if opened or q:
                self.find("spec", "entries of one of the trees are missing from the union", st)
                return False
        return True

    # -------------------------------------------------- order of tokens
    def order(self, st, a, b):
        """[(state, sign of a - b)]"""
        rel = st.hook["rel"]
        if a == b:
            return [(st, 0)]
        for r, sg in ((("<"), -1), (("="), 0)):
            if (a, b, r) in rel:
                return [(st, sg)]
        if (b, a, "=") in rel:
            return [(st, 0)]
        if (b, a, "<") in rel:
            return [(st, 1)]
        out = []
        for sg, add in ((-1, {(a, b, "<")}), (0, {(a, b, "="), (b, a, "=")}), (1, {(b, a, "<")})):
            r = closed(rel | add)
            if r is not None:
                s = st.copy()
                self.put(s, rel=r)
                out.append((s, sg))
        return out

    def signature(self, st, v):
        """Everything later steps can depend on, with the tokens renamed in order of appearance."""
        names = {}
        cells = {}

        def nm(t):
            return names.setdefault(t, "%s.%d" % (t[0], len(names)))

        def go(v):
            if isinstance(v, (Key, Val)):
                return (type(v).__name__, nm(v.a) if v.k == "N" else repr(v))
            if isinstance(v, Agg):
                return (v.v, tuple(go(x) for x in v.f))
            if isinstance(v, Ptr):
                if v.c not in cells:
                    cells[v.c] = len(cells)
                    return ("ptr", cells[v.c], go(st.cells.get(v.c)), repr(v.p))
                return ("ptr", cells[v.c], repr(v.p))
            if isinstance(v, Seq):
                return ("seq", tuple(go(x) for x in v.items))
            return repr(v)
        sg = go(v)
        src = tuple((x, o, tuple(nm(t) for t in q), f) for x, (o, q, l, f) in st.hook["src"])
        lasts = tuple((x, nm(l) if l in names else None) for x, (o, q, l, f) in st.hook["src"])
        rel = frozenset((names[a], names[b], r) for a, b, r in st.hook["rel"] if a in names and b in names)
        return (sg, src, lasts, rel, st.hook["pend"], st.hook["ins"])

    def trim(self, st, v):
        """Forget the order of tokens that are gone."""
        live = set()
        seen = set()

        def go(v):
            if isinstance(v, (Key, Val)):
                live.add(v.a)
            elif isinstance(v, Agg):
                for x in v.f:
                    go(x)
            elif isinstance(v, Seq):
                for x in v.items:
                    go(x)
            elif isinstance(v, Ptr) and v.c not in seen:
                seen.add(v.c)
                go(st.cells.get(v.c))
        go(v)
        for x, (o, q, l, f) in st.hook["src"]:
            live |= set(q) | ({l} if l else set())
        self.put(st, rel=frozenset((a, b, r) for a, b, r in st.hook["rel"] if a in live and b in live))

    # -------------------------------------------------- draining an iterator
    def drain(self, st, it, step, depth):
        """Call `step` until it gives nothing: [states]"""
        cell = st.new_cell(it)
        seen, work, done, fin = set(), [st], [], set()
        while work:
            s = work.pop()
            self.trim(s, s.cells[cell])
            sg = self.signature(s, s.cells[cell])
            if sg in seen:
                continue
            if len(seen) > 4000:
                raise Unsupported("too many situations")
            seen.add(sg)
            for o in step(s, Ptr(cell)):
                if o.k != "ret":
                    if o.k == "panic":
                        self.ctx.find("panic", "panic (%s)" % (o.v[0],), o.st, o.v[1])
                    continue
                self.ctx.obligations += 1
                if o.v == NONE:
                    if self.ended(o.st):
                        sg = self.signature(o.st, UNIT)
                        if sg not in fin:
                            fin.add(sg)
                            done.append(o.st)
                elif isinstance(o.v, Agg) and len(o.v.f) == 1:
                    work.extend(self.emitted(o.st, o.v.f[0]))
                else:
                    raise Unsupported("item %r" % (o.v,))
        return done

    # -------------------------------------------------- the operations used
    def override(self, c):
        p = c.get("rpath") or c["path"]
        q = c["path"]
        f = self.base(c, p, q) or getattr(self, "mode_" + self.mode)(c, p, q)
        return f

    def base(self, c, p, q):
        if p.startswith(OWNED) and p.endswith(">::new"):
            return self.owned_new
        if p.startswith("crate::<iter::owned::OwnedIter<"):
            if p.endswith("Iterator>::next"):
                return self.nexts(True)
            if p.endswith("next_back"):
                return no("taking entries from the back")
            if p.endswith("size_hint"):
                return self.size_hint
        if p == "crate::PalmTree::<K, V, C>::iter":
            return self.iter_ref
        if p.startswith("crate::<iter::ref_iter::Iter<"):
            if p.endswith("Iterator>::next"):
                return self.nexts(False)
            if p.endswith("next_back"):
                return no("taking entries from the back")
        if p.startswith("<std::collections::btree_map::") or p.startswith("<std::collections::BTreeMap") or "btree" in p.lower():
            if q.endswith("into_iter"):
                return lambda eng, st, args, c, t, depth: ret(st, Opq("own", args[0].d))
            if q.endswith("Iterator::next"):
                return self.nexts(True)
        if q == "std::ops::Drop::drop":
            return None
        return None

    def owned_new(self, eng, st, args, c, t, depth):
        root = size = None
        for a in args:
            if isinstance(a, Agg):
                root = a
            elif isinstance(a, L):
                size = a
        if root is None:
            raise Unsupported("an owning iterator without a tree")
        if root == NONE:
            x = None
            n = ZERO
        else:
            r = root.f[0]
            if not isinstance(r, Opq):
                raise Unsupported("an owning iterator of %r" % (r,))
            x = r.d
            n = self.N.get(x)
        if size is not None and n is not None and not (st.prove(size - n) and st.prove(n - size)):
            self.find("args", "an owning iterator is given another count than its tree's", st)
        return ret(st, Opq("own", x))

    def nexts(self, owned):
        def f(eng, st, args, c, t, depth):
            out = []
            for s, v in eng.load(st, args[0]):
                if not isinstance(v, Opq) or v.t not in ("own", "refs"):
                    raise Unsupported("iterator %r" % (v,))
                if v.d is None:
                    out.append(Out(s, "ret", NONE))
                elif self.mode == "compare":
                    out.extend(self.draw_round(s, v.d, args[0]))
                else:
                    out.extend(self.draw(s, v.d, owned))
            return out
        return f

    def size_hint(self, eng, st, args, c, t, depth):
        for s, v in eng.load(st, args[0]):
            n = fresh("hint")
            s.ge(n)
            return ret(s, Agg(0, (n, some(n))))

    def root_name(self, eng, st, ptr):
        """The tree behind a reference: [(state, name or None)]"""
        out = []
        for s, v in eng.load(st, ptr):
            if isinstance(v, Ptr):
                out.extend(self.root_name(eng, s, v))
                continue
            r = v.f[tree_fields(eng)["root"]]
            if r == NONE:
                out.append((s, None))
            elif isinstance(r, Agg) and isinstance(r.f[0], Opq):
                out.append((s, r.f[0].d))
            else:
                raise Unsupported("tree %r" % (v,))
        return out

    def iter_ref(self, eng, st, args, c, t, depth):
        out = []
        for s, x in self.root_name(eng, st, args[0]):
            if self.mode == "compare":
                self.put(s, made=s.hook["made"] + (x,))
            out.append(Out(s, "ret", Opq("refs", x)))
        return out

    # -------------------------------------------------- C08
    def mode_union(self, c, p, q):
        if p == "crate::PalmTree::<K, V, C>::load":
            return self.load
        if q.startswith("std::cmp::Partial") or q == "std::cmp::Ord::cmp":
            return self.compare(q.rsplit("::", 1)[-1])
        if q == "std::iter::FromIterator::from_iter":
            return None
        return None

    def compare(self, which):
        def f(eng, st, args, c, t, depth):
            out = []
            for s, a in models.deref_key(eng, st, args[0]):
                for s2, b in models.deref_key(eng, s, args[1]):
                    if not (isinstance(a, Key) and isinstance(b, Key)):
                        g = models.TABLE.get(c["path"])
                        if g is None:
                            raise Unsupported("comparison of %r and %r" % (a, b))
                        out.extend(g(eng, s2, args, c, t, depth))
                        continue
                    for s3, sg in self.order(s2, a.a, b.a):
                        if which in ("cmp", "partial_cmp"):
                            o = Agg(sg + 1, ())
                            out.append(Out(s3, "ret", some(o) if which == "partial_cmp" else o))
                        else:
                            r = {"lt": sg < 0, "le": sg <= 0, "gt": sg > 0, "ge": sg >= 0, "eq": sg == 0, "ne": sg != 0}[which]
                            out.append(Out(s3, "ret", TRUE if r else FALSE))
            return out
        return f

    def next_of(self, key):
        """The calls by which a body takes its argument apart: (into_iter, next)."""
        into = nxt = None
        for bl in self.ctx.prog.bodies[key]["blocks"]:
            t = bl["t"]
            if t.get("k") == "call":
                f = t["f"].get("c") or {}
                if f.get("path") == "std::iter::Iterator::next":
                    nxt = f
                elif f.get("path") == "std::iter::IntoIterator::into_iter":
                    into = f
        if nxt is None:
            raise Unsupported("load does not use next")
        return into, nxt

    def call(self, st, c, args, depth):
        m = models.find(self.eng, c)
        if m is not None:
            return m(self.eng, st, args, c, None, depth)
        if c.get("key") in self.ctx.prog.bodies:
            return self.eng.call_body(st, c["key"], args, c, depth)
        raise Unsupported("call of " + (c.get("rpath") or c["path"]))

    def load(self, eng, st, args, c, t, depth):
        into, nxt = self.next_of(c["key"])
        its = [Out(st, "ret", args[0])]
        if into is not None:
            its = self.call(st, into, [args[0]], depth)
        out = []
        for o in its:
            if o.k != "ret":
                out.append(o)
                continue
            for s in self.drain(o.st, o.v, lambda s, p: self.call(s, nxt, [p], depth), depth):
                n = L.sym("NM")
                s.ge(n)
                for w, r in ((ge(n - 1), some(Opq("root", "M"))), (eq(n), NONE)):
                    for s2 in s.copy().where(w):
                        if s2.alive():
                            self.put(s2, loaded=True)
                            out.append(Out(s2, "ret", tree_agg(eng, n, r)))
        return out

    def is_union(self, st, v, what):
        """Is the tree the union of the operands?"""
        tf = tree_fields(self.eng)
        root, size = v.f[tf["root"]], v.f[tf["size"]]
        full = [x for x, k in self.kinds.items() if k == "full"]
        self.ctx.obligations += 2
        done = st.hook["loaded"]
        if root == NONE or (isinstance(root.f[0], Opq) and root.f[0].d != "M" and self.kinds[root.f[0].d] == "hollow"):
            if full and not done:
                self.find("spec", "%s loses the entries of %s" % (what, " and ".join(sorted(full))), st)
                return
            want = L.sym("NM") if done else ZERO
        else:
            x = root.f[0].d
            if x == "M":
                if not done:
                    self.find("spec", what + " does not hold the union", st)
                    return
                want = L.sym("NM")
            else:
                if full != [x]:
                    self.find("spec", "%s holds only the entries of %s" % (what, x), st)
                    return
                op, q, last, first = self.src(st, x)
                if q or not first:
                    self.find("spec", "%s has lost entries of %s" % (what, x), st)
                    return
                want = self.N[x]
        if not (st.prove(size - want) and st.prove(want - size)):
            self.find("size", "%s has a length that is not the number of its entries" % what, st)

    # -------------------------------------------------- C22
    def mode_collect(self, c, p, q):
        if p in ("crate::PalmTree::<K, V, C>::insert", "crate::PalmTree::<K, V, C>::insert_recursive"):
            return self.insert
        if p == "crate::PalmTree::<K, V, C>::load":
            return self.load_unordered
        if p in ("crate::PalmTree::<K, V, C>::get", "crate::PalmTree::<K, V, C>::get_mut", "crate::PalmTree::<K, V, C>::get_linear"):
            return self.get
        if p == "crate::PalmTree::<K, V, C>::entry":
            return self.entry
        if p.startswith("crate::entry::"):
            return self.entry_method(p.rsplit("::", 1)[-1])
        if p.startswith("crate::PalmTree::<K, V, C>::") and p.rsplit("::", 1)[-1] in (
                "remove", "remove_lowest", "remove_highest", "append_left", "append_right", "merge_left", "merge_right"):
            return no(p)
        if q == "std::iter::IntoIterator::into_iter" and c["kind"] == "unresolved":
            return lambda eng, st, args, c, t, depth: ret(st, args[0])
        if q == "std::iter::Iterator::next" and c["kind"] == "unresolved":
            return self.next_user
        if q == "std::iter::Iterator::size_hint" and c["kind"] == "unresolved":
            return self.size_hint
        return None

    def pend(self, st, t, what):
        self.settle(st)
        if st.hook["pend"] is not None:
            self.find("spec", "an item is given up without being inserted", st)
            return False
        return True

    def settle(self, st):
        """An item is in the tree once its value has been put in the place of the one stored under its key."""
        slot = st.hook.get("slot")
        if slot is None:
            return
        v = st.cells.get(slot)
        if st.hook["pend"] is not None and v == Val("N", "u"):
            self.put(st, pend=None)
        elif v != Val("N", "old"):
            raise Unsupported("a value changed in place")
        st.cells[slot] = UNIT
        self.put(st, slot=None)

    def next_user(self, eng, st, args, c, t, depth):
        out = []
        for s, v in eng.load(st, args[0]):
            if not isinstance(v, Agg) or not isinstance(v.f[0], Opq):
                raise Unsupported("iterator %r" % (v,))
            if not self.pend(s, None, ""):
                continue
            if s.hook["over"]:
                out.append(Out(s, "ret", NONE))
                continue
            for e in eng.store(s.copy(), args[0], Agg(0, (v.f[0], v.f[1] + 1))):
                self.put(e, over=True)
                out.append(Out(e, "ret", NONE))
            for e in eng.store(s, args[0], Agg(0, (v.f[0], v.f[1] + 1))):
                self.put(e, pend="u")
                k, x = Key("N", "u"), Val("N", "u")
                if self.refs:
                    k, x = self.ref_cells(e, k, x)
                out.append(Out(e, "ret", some(Agg(0, (k, x)))))
        return out

    def ref_cells(self, st, k, x):
        st.cells[self.kcell] = k
        st.cells[self.vcell] = x
        return Ptr(self.kcell), Ptr(self.vcell)

    def inserted(self, st, tree, k, v):
        """An entry is put into the tree: [states]"""
        if not (isinstance(k, Key) and isinstance(v, Val)):
            raise Unsupported("insertion of %r" % ((k, v),))
        if st.hook["pend"] is None:
            self.find("spec", "something is inserted that was not an item", st)
            return []
        if not (k == Key("N", "u") and v == Val("N", "u")):
            self.find("spec", "something other than the item is inserted", st)
            return []
        out = []
        for s in self.eng.store(st, tree, tree_agg(self.eng, L.sym("NI"), some(Opq("root", "I")))):
            self.put(s, pend=None, ins=True)
            s.ge(L.sym("NI") - 1)
            out.append(s)
        return out

    def insert(self, eng, st, args, c, t, depth):
        out = []
        for s in self.target(st, args[0]):
            for s2 in self.inserted(s, args[0], args[1], args[2]):
                out.append(Out(s2.copy(), "ret", NONE))
                out.append(Out(s2, "ret", some(Val("N", "old"))))
        return out

    def target(self, st, ptr):
        """The tree that is collected into is the one written to."""
        out = []
        for s, x in self.root_name(self.eng, st, ptr):
            if s.hook["ins"] and x != "I":
                self.find("spec", "items go into different trees", s)
            elif not s.hook["ins"] and "A" in self.kinds and x != ("A" if self.kinds["A"] != "new" else None):
                self.find("spec", "items go into another tree", s)
            else:
                out.append(s)
        return out

    def get(self, eng, st, args, c, t, depth):
        out = []
        mut = (c.get("rpath") or c["path"]).endswith("get_mut")
        for s, k in models.deref_key(eng, st, args[1]):
            if k != Key("N", "u") or s.hook["pend"] is None:
                raise Unsupported("lookup of %r" % (k,))
            for s1 in self.target(s, args[0]) if mut else [s]:
                if s1.hook.get("slot") is not None:
                    raise Unsupported("a second place in the tree")
                out.append(Out(s1.copy(), "ret", NONE))
                cell = self.slotcell if mut else self.oldcell
                s1.cells[cell] = Val("N", "old")
                if mut:
                    self.put(s1, slot=cell)
                out.append(Out(s1, "ret", some(Ptr(cell))))
        return out

    def entry(self, eng, st, args, c, t, depth):
        y = eng.ty(self.ctx.prog.bodies[c["key"]]["locals"][0])
        out = []
        for s in self.target(st, args[0]):
            for i, v in enumerate(y["variants"]):
                out.append(Out(s.copy(), "ret", Agg(i, (Opq("entry", (v["name"], args[0], args[1])),))))
        return out

    def entry_method(self, name):
        def f(eng, st, args, c, t, depth):
            h = args[0]
            if isinstance(h, Ptr):
                hs = eng.load(st, h)
            else:
                hs = [(st, h)]
            out = []
            for s, v in hs:
                if not (isinstance(v, Opq) and v.t == "entry"):
                    raise Unsupported("entry %r" % (v,))
                if name == "insert":
                    for s2 in self.inserted(s, v.d[1], v.d[2], args[1]):
                        s2.cells[self.newcell] = args[1]
                        out.append(Out(s2, "ret", Val("N", "old") if v.d[0] == "Occupied" else Ptr(self.newcell)))
                elif name == "get":
                    s.cells[self.oldcell] = Val("N", "old")
                    out.append(Out(s, "ret", Ptr(self.oldcell)))
                elif name in ("get_mut", "into_mut"):
                    if v.d[2] != Key("N", "u") or s.hook["pend"] is None or s.hook.get("slot") is not None:
                        raise Unsupported("entry method " + name)
                    s.cells[self.slotcell] = Val("N", "old")
                    self.put(s, slot=self.slotcell)
                    out.append(Out(s, "ret", Ptr(self.slotcell)))
                elif name == "key":
                    s.cells[self.oldkey] = v.d[2]
                    out.append(Out(s, "ret", Ptr(self.oldkey)))
                else:
                    raise Unsupported("entry method " + name)
            return out
        return f

    def load_unordered(self, eng, st, args, c, t, depth):
        if not mentions(args[0], "user"):
            raise Unsupported("loading of %r" % (args[0],))
        self.find("spec", "load is given items in any order", st)
        return []

    # -------------------------------------------------- C17
    def mode_compare(self, c, p, q):
        for n in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp"):
            if p == "std::iter::Iterator::" + n:
                return self.seq_cmp(n)
        if q in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne", "std::cmp::Ord::cmp") or q.startswith("std::cmp::PartialOrd::"):
            if p == q or not p.startswith("crate::"):
                return self.step_cmp(q.rsplit("::", 1)[-1])
        if p in ("std::iter::Iterator::rev", "std::iter::Iterator::map", "std::iter::Iterator::by_ref", "std::iter::Iterator::skip", "std::iter::Iterator::take",
                 "std::iter::Iterator::filter", "std::iter::Iterator::step_by"):
            return self.adapt(p.rsplit("::", 1)[-1])
        return None

    # entries of two trees drawn one by one, a pair of them at a time
    def slot(self, st, x, ptr):
        """Which of the two sequences this iterator reads, "A" or "B"."""
        if not self.twin:
            return x
        at = (ptr.c, ptr.p)
        slots = st.hook["slots"]
        for name, y in slots:
            if y == at:
                return name
        if len(slots) == 2:
            raise Unsupported("a third iterator over the trees compared")
        name = "AB"[len(slots)]
        self.put(st, slots=slots + ((name, at),))
        return name

    def rounds(self, st, first):
        """What the next pair can be: how it compares, and which of the two there are."""
        kind, sg = self.rel if isinstance(self.rel, tuple) else (self.rel, None)
        full = [self.kinds[x] == "full" for x in ("AA" if self.twin else "AB")]
        if not (full[0] and full[1]):
            return [("end", full[0], full[1])]
        apart = st.hook["apart"]
        if kind == "keys" and apart:
            return [("wild", True, True), ("end", True, False), ("end", False, True), ("end", False, False)]
        out = [("wild" if kind == "vals" and apart else "same", True, True)]
        if kind == "keys":
            out.append(("key", True, True))
            if not first:
                out.append(("end", sg > 0, sg < 0))
        elif kind == "vals" and not apart:
            out.append(("val", True, True))
        elif kind == "odd":
            out.append(("odd", True, True))
        if not first and (kind == "same" or apart):
            out.append(("end", False, False))
        return out

    def draw_round(self, st, x, ptr):
        if st.hook["made"].count(x) > (2 if self.twin else 1):
            raise Unsupported("several iterators over one of the trees compared")
        x = self.slot(st, x, ptr)
        kind, la, lb, da, db = st.hook["round"]
        out = []
        mine, drawn, other = (la, da, db) if x == "A" else (lb, db, da)
        if not drawn:
            cases = [(st, kind, la, lb)]
        elif kind == "end":
            # over for one of them: the other may have more
            cases = [(st, kind, la, lb)] + ([(st.copy(), "end", False, False)] if mine else [])
            da = db = True
        elif not other:
            raise Unsupported("the trees compared are not read in step")
        else:
            cases = []
            da = db = False
            for k, a, b in self.rounds(st, kind is None):
                s = st.copy()
                if k == "end" and a != b and isinstance(self.rel, tuple) and not s.hook["apart"]:
                    # one is the beginning of the other
                    n, m = self.N["A"], self.N["B"]
                    s.ge(n - m - 1 if a else m - n - 1)
                    if not s.feasible():
                        continue
                if k in ("key", "val", "odd"):
                    self.put(s, apart=True)
                cases.append((s, k, a, b))
        for s, k, a, b in cases:
            self.put(s, round=(k, a, b, da or x == "A", db or x == "B"))
            if not (a if x == "A" else b):
                out.append(Out(s, "ret", NONE))
                continue
            kc, vc = self.cells[x]
            s.cells[kc], s.cells[vc] = Key("N", x), Val("N", x)
            out.append(Out(s, "ret", some(Agg(0, (Ptr(kc), Ptr(vc))))))
        return out

    def step_cmp(self, which):
        def f(eng, st, args, c, t, depth):
            out = []
            for s, a in models.deref_key(eng, st, args[0]):
                for s2, b in models.deref_key(eng, s, args[1]):
                    if not (isinstance(a, (Key, Val)) and type(a) is type(b)):
                        g = models.TABLE.get(c["path"])
                        if g is not None:
                            out.extend(g(eng, s2, args, c, t, depth))
                        elif c.get("key") in self.ctx.prog.bodies:
                            out.extend(eng.call_body(s2, c["key"], args, c, depth))
                        else:
                            raise Unsupported("comparison of %r and %r" % (a, b))
                        continue
                    for sg in self.pair_signs(s2, a, b):
                        out.append(Out(s2.copy(), "ret", self.answer(which, sg)))
            return out
        return f

    def pair_signs(self, st, a, b):
        kind = st.hook["round"][0]
        val = isinstance(a, Val)
        if val and kind == "odd":
            return [None]
        if a.a == b.a or kind in ("same", "odd") or kind == "val" and not val or kind == "wild" and not val and self.rel[0] == "vals":
            return [0]
        if kind == ("val" if val else "key"):
            sg = self.rel[1]
            return [sg if sg is None or a.a == "A" else -sg]
        return [-1, 0, 1, None] if val else [-1, 0, 1]

    def adapt(self, how):
        def f(eng, st, args, c, t, depth):
            v = args[0]
            if isinstance(v, Opq) and v.t == "refs":
                v = Opq("view", (v.d, False, "kv"))
            if not (isinstance(v, Opq) and v.t == "view"):
                if isinstance(v, Agg):
                    # an iterator made of others
                    m = models.TABLE.get(c.get("rpath") or c["path"])
                    if m is not None:
                        return m(eng, st, args, c, t, depth)
                    key = c.get("given") if c.get("given") in eng.prog.bodies else c.get("key")
                    if key in eng.prog.bodies:
                        return eng.call_body(st, key, args, c, depth)
                raise Unsupported("adaptor of %r" % (v,))
            x, rev, proj = v.d
            if how == "rev":
                return ret(st, Opq("view", (x, not rev, proj)))
            if how == "map":
                return ret(st, Opq("view", (x, rev, self.projection(st, args[1], c, proj, depth))))
            if how == "by_ref":
                raise Unsupported("by_ref")
            return ret(st, Opq("view", (x, rev, "some")))
        return f

    def projection(self, st, fv, c, proj, depth):
        """What a closure keeps of an entry."""
        eng = self.eng
        s = st.copy()
        key = None
        for a in c.get("rargs") or c["args"]:
            y = eng.ty(a)
            if y["k"] == "closure":
                key = [k for k in self.ctx.prog.bodies if k.startswith(y["path"]) or ("crate::" + y["path"]) in k]
        if not key or proj != "kv":
            raise Unsupported("a mapped iterator")
        kc, vc = s.new_cell(Key("N", "pk")), s.new_cell(Val("N", "pv"))
        outs = eng.call_body(s, key[0], [s.new_cell(fv) and Ptr(s.new_cell(fv)), Agg(0, (Agg(0, (Ptr(kc), Ptr(vc))),))], {"trait": "std::ops::FnMut"}, depth)
        kept = set()
        for o in outs:
            if o.k == "ret":
                kept.add(frozenset(self.leaves(o.st, o.v)))
        names = {frozenset(): "none", frozenset("k"): "k", frozenset("v"): "v", frozenset("kv"): "kv"}
        if len(kept) != 1 or next(iter(kept)) not in names:
            raise Unsupported("a mapped iterator")
        return names[next(iter(kept))]

    def leaves(self, st, v):
        if isinstance(v, Ptr):
            return {x for s, y in self.eng.load(st.copy(), v) for x in self.leaves(s, y)}
        if isinstance(v, Agg):
            return {y for x in v.f for y in self.leaves(st, x)}
        if isinstance(v, Key):
            return {"k"}
        if isinstance(v, Val):
            return {"v"}
        raise Unsupported("part %r" % (v,))

    def seq_cmp(self, which):
        def f(eng, st, args, c, t, depth):
            vs = []
            for v in args[:2]:
                if isinstance(v, Ptr):
                    v = eng.load(st, v)[0][1]
                if isinstance(v, Opq) and v.t == "refs":
                    v = Opq("view", (v.d, False, "kv"))
                if not (isinstance(v, Opq) and v.t == "view"):
                    raise Unsupported("comparison of %r" % (v,))
                vs.append(v.d)
            (x, r1, p1), (y, r2, p2) = vs
            if p1 != p2 or r1 != r2:
                return [Out(s, "ret", self.answer(which, sg)) for sg in (-1, 0, 1) for s in [st.copy()]]
            return [Out(st.copy(), "ret", self.answer(which, sg)) for sg in self.signs(x, y, r1, p1)]
        return f

    def answer(self, which, sg):
        if which == "cmp":
            return Agg(sg + 1, ())
        if which == "partial_cmp":
            return NONE if sg is None else some(Agg(sg + 1, ()))
        if sg is None:
            return TRUE if which == "ne" else FALSE
        r = {"lt": sg < 0, "le": sg <= 0, "gt": sg > 0, "ge": sg >= 0, "eq": sg == 0, "ne": sg != 0}[which]
        return TRUE if r else FALSE

    def signs(self, x, y, rev, proj):
        """The possible outcomes of comparing two sequences, given how the trees' entries relate."""
        k = self.kinds
        ea, eb = x is None or k[x] != "full", y is None or k[y] != "full"
        if ea or eb:
            return [0 if ea and eb else -1 if ea else 1]
        if x == y and self.rel != "odd":
            return [0]
        flip = 1
        if (x, y) == ("B", "A"):
            flip = -1
        rel = self.rel
        if rel == "same":
            return [0]
        kind, sg = rel if isinstance(rel, tuple) else (rel, None)
        if kind == "odd":               # one tree, with a value that does not equal itself
            return [0] if proj == "k" else [None]
        if proj == "some" or proj == "none":
            return [-1, 0, 1]
        if kind == "vals":              # keys agree; at the first difference the values compare so
            if proj == "k":
                return [0]
            s = None if sg is None else sg * flip
            return [s] if not rev else [-1, 1, None]
        if proj == "v":
            return [-1, 0, 1]
        if rev:
            return [-1, 1]
        return [sg * flip]

    # -------------------------------------------------- hash and format
    def mode_visit(self, c, p, q):
        if q == "std::hash::Hash::hash" or q.startswith("std::hash::Hasher::write"):
            return self.hashes
        if p.startswith("std::fmt::Formatter::<'a>::debug_"):
            return self.builder(p.rsplit("_", 1)[-1])
        if p.startswith("std::fmt::DebugMap::"):
            return self.map_method(p.rsplit("::", 1)[-1])
        if q in ("std::iter::Iterator::rev", "std::iter::Iterator::map", "std::iter::Iterator::skip", "std::iter::Iterator::take", "std::iter::Iterator::filter",
                 "std::iter::Iterator::step_by"):
            return self.adapt(q.rsplit("::", 1)[-1])
        if not self.formats and p.startswith("<std::iter::") and p.endswith(" as std::iter::Iterator>::next"):
            return self.some_next
        if p in ("crate::<branch::Branch<K, V, C> as std::fmt::Debug>::fmt", "crate::branch::Branch::<K, V, C>::tree_fmt"):
            return self.raw_format
        return None

    def some_next(self, eng, st, args, c, t, depth):
        """An iterator over some of a tree's entries."""
        v = self.deep(eng, st, args[0])
        if not (isinstance(v, Opq) and v.t == "view"):
            return eng.call_body(st, c["key"], args, c, depth)
        out = [Out(st.copy(), "ret", NONE)]
        if v.d[0] is not None and self.kinds[v.d[0]] == "full":
            if v.d[2] not in ("kv", "some"):
                raise Unsupported("parts of the entries")
            k, x = self.ref_cells(st, Key("N", "e"), Val("N", "e"))
            out.append(Out(st, "ret", some(Agg(0, (k, x)))))
        return out

    def event(self, st, e):
        self.put(st, trace=st.hook["trace"] + (e,))
        if len(st.hook["trace"]) > 12:
            raise Unsupported("too many things hashed or formatted")

    def hashes(self, eng, st, args, c, t, depth):
        v = args[0] if c["path"] == "std::hash::Hash::hash" else args[1]
        todo = [v]
        while todo:
            v = todo.pop()
            if isinstance(v, Ptr):
                r = eng.load(st, v)
                if len(r) != 1:
                    raise Unsupported("hashing %r" % (v,))
                st, v = r[0]
            if isinstance(v, Ptr):
                todo.append(v)
            elif isinstance(v, Agg):
                if len(v.f) == 0 or isinstance(v.v, int) and v.v:
                    self.seen_const(st, v.v)
                todo.extend(reversed(v.f))
            elif isinstance(v, (Key, Val)):
                pass
            elif isinstance(v, L):
                self.seen_number(st, v)
            elif isinstance(v, Cond):
                self.seen_const(st, v.k)
            else:
                self.find("spec", "something is hashed that is not a part of the entries", st)
        return ret(st)

    def seen_const(self, st, x):
        if all(k != "full" for k in self.kinds.values()):
            self.event(st, ("c", x))

    def seen_number(self, st, v):
        v = st.sys.red(v)
        if v.const() is not None:
            self.seen_const(st, v.const())
        elif not (st.prove(v - self.N["A"]) and st.prove(self.N["A"] - v)):
            self.find("spec", "a number is hashed that is not the length", st)

    def builder(self, kind):
        def f(eng, st, args, c, t, depth):
            if kind != "map":
                self.find("spec", "the tree is not formatted as a map", st)
                return []
            if st.hook["trace"]:
                raise Unsupported("two formatters")
            self.event(st, "map")
            return ret(st, Opq("debugmap"))
        return f

    def map_method(self, name):
        def f(eng, st, args, c, t, depth):
            if name == "finish":
                if st.hook["trace"] == ("map",):
                    self.event(st, "end")
                    return ret(st, Opq("fmt"))
                self.find("spec", "a formatter is finished twice", st)
                return []
            if name == "entries":
                v = args[1]
                if isinstance(v, Ptr):
                    raise Unsupported("entries of a tree")
                d = v.d if isinstance(v, Opq) else "?"
                d = (d, False, "kv") if isinstance(v, Opq) and v.t == "refs" else d
                if not isinstance(d, tuple):
                    raise Unsupported("entries of %r" % (v,))
                x, rev, proj = d
                if rev:
                    self.find("spec", "the entries are formatted in descending order", st)
                    return []
                if proj != "kv":
                    self.find("spec", "not all of the entries are formatted", st)
                    return []
                if x is not None:
                    op, qu, last, first = self.src(st, x)
                    if qu or op and not first:
                        self.find("spec", "some entries are left out of the formatted map", st)
                        return []
                    self.set_src(st, x, (False, (), None, False))
                return ret(st, args[0])
            if name == "entry":
                k = [self.deep(eng, st, a) for a in args[1:3]]
                op, qu, last, first = self.src(st, "A")
                if not (isinstance(k[0], Key) and isinstance(k[1], Val)) or len(qu) != 1 or k[0].a != qu[0] or k[1].a != qu[0]:
                    self.find("spec", "an entry is formatted that is not the next one", st)
                    return []
                self.set_src(st, "A", (op, (), last, first))
                return ret(st, args[0])
            raise Unsupported("DebugMap::" + name)
        return f

    def deep(self, eng, st, v):
        while isinstance(v, Ptr):
            v = eng.load(st, v)[0][1]
        return v

    def raw_format(self, eng, st, args, c, t, depth):
        self.find("spec", "the tree's structure is formatted", st)
        return []


def no(what):
    def f(eng, st, args, c, t, depth):
        raise Unsupported(what)
    return f


def closed(rel):
    """Transitive closure of order facts; None when they contradict each other."""
    rel = set(rel)
    more = True
    while more:
        more = False
        for a, b, r in list(rel):
            for c, d, q in list(rel):
                if b == c and a != d:
                    n = (a, d, "=" if r == q == "=" else "<")
                    if n not in rel:
                        rel.add(n)
                        more = True
                    if n[2] == "=" and (d, a, "=") not in rel:
                        rel.add((d, a, "="))
                        more = True
                elif b == c and a == d and (r == "<" or q == "<"):
                    return None
    for a, b, r in rel:
        if r == "<" and ((a, b, "=") in rel or (b, a, "<") in rel or a == b):
            return None
    return frozenset(rel)


# ---------------------------------------------------------------- drivers

def union(ctx, fn, a, b, bias, how):
    """merge / append / + / += of two trees."""
    w = World(ctx, "union", {"A": a, "B": b}, bias=bias)
    st = w.start()
    ta, tb = w.tree("A"), w.tree("B")
    f = ctx.fn(fn)
    ca, cb = st.new_cell(ta), st.new_cell(tb)
    args = {"vv": [ta, tb], "mv": [Ptr(ca), tb], "vr": [ta, Ptr(cb)], "mr": [Ptr(ca), Ptr(cb)]}[how]
    if how[0] == "v":
        st.cells[ca] = MOVED
    if how[1] == "v":
        st.cells[cb] = MOVED
    for s, v in ctx.call(st, f, args):
        if how[0] == "m":
            v = s.cells[ca]
        w.is_union(s, v, fn.split("::")[-1])


def from_map(ctx, b):
    w = World(ctx, "union", {"B": b}, bias="B")
    st = w.start()
    for s, v in ctx.call(st, ctx.fn("<PalmTree<K, V, C> as std::convert::From<std::collections::BTreeMap<K, V>>>::from"), [Opq("btree", "B")]):
        w.is_union(s, v, "a tree made from a BTreeMap")


def mentions(v, what):
    if isinstance(v, Opq):
        return v.t == what or isinstance(v.d, (tuple, list)) and any(mentions(x, what) for x in v.d)
    return isinstance(v, Agg) and any(mentions(x, what) for x in v.f)


def collect(ctx, fn, a, refs):
    kinds = {} if a is None else {"A": a}
    w = World(ctx, "collect", kinds, bias=None, refs=refs)
    st = w.start()
    w.kcell, w.vcell = st.new_cell(UNIT), st.new_cell(UNIT)
    w.slotcell, w.oldcell, w.newcell, w.oldkey = (st.new_cell(UNIT) for _ in range(4))
    user = Agg(0, (Opq("user"), ZERO))
    f = ctx.fn(fn)
    tf = tree_fields(ctx.eng)
    ca = None
    if a is not None:
        ca = st.new_cell(w.tree("A"))
        args = [Ptr(ca), user]
    else:
        args = [user]
    for s, v in ctx.call(st, f, args):
        if ca is not None:
            v = s.cells[ca]
        w.settle(s)
        if not ctx.ensure("spec", s, s.hook["pend"] is None, "an item is not inserted") or \
                not ctx.ensure("spec", s, s.hook["over"], "collecting stops before the items end"):
            continue
        r = v.f[tf["root"]]
        if s.hook["ins"]:
            ctx.ensure("spec", s, isinstance(r, Agg) and r != NONE and r.f[0].d == "I", "the tree returned is not the one the items went into")
        elif a is None:
            ctx.ensure("spec", s, r == NONE and eq(v.f[tf["size"]]), "a tree collected from nothing is not empty")
        else:
            t0 = w.tree("A")
            same = (r == NONE) == (t0.f[tf["root"]] == NONE) and (r == NONE or r.f[0].d == "A")
            ctx.ensure("spec", s, same and eq(v.f[tf["size"]] - t0.f[tf["size"]]), "a tree extended with nothing has changed")


def comparing(ctx, fn, a, b, rel, twin):
    w = World(ctx, "compare", {"A": a, "B": b}, rel=rel, twin=twin)
    st = w.start()
    w.cells = {x: (st.new_cell(UNIT), st.new_cell(UNIT)) for x in "AB"}
    w.put(st, round=(None, True, True, True, True), slots=(), apart=False, made=())
    ctx.eng.unchanged_iters = lambda s0, b: False      # every turn reads on in a finite tree
    ta, tb = w.tree("A"), w.tree("B")
    if twin:
        tb = ta
    fa, fb = w.N["A"], w.N["B"]
    if rel in ("same", "odd") or rel[0] == "vals":
        st.eq(fa - fb)
    ca, cb = st.new_cell(ta), st.new_cell(tb)
    kinds = w.kinds
    sg = w.signs(None if a == "new" else "A", None if b == "new" else ("A" if twin else "B"), False, "kv")[0]
    which = {"partial_eq": "eq"}.get(fn, fn)
    name = {"eq": "PartialEq>::eq", "partial_cmp": "PartialOrd>::partial_cmp", "cmp": "Ord>::cmp"}[which]
    want = w.answer(which, sg)
    for s, v in ctx.call(st, ctx.fn("<PalmTree<K, V, C> as std::cmp::" + name), [Ptr(ca), Ptr(cb)]):
        what = {"eq": "two trees are reported equal or different against their entries", "cmp": "two trees are ordered against their entries",
                "partial_cmp": "two trees are partially ordered against their entries"}[which]
        if isinstance(v, Cond):
            ctx.ensure("spec", s, v if want == TRUE else v.neg(), what)
        else:
            ctx.ensure("spec", s, v == want, what)


def hashing(ctx):
    traces = {}
    for a in KINDS:
        w = World(ctx, "visit", {"A": a}, formats=False)
        st = w.start()
        w.kcell, w.vcell = st.new_cell(UNIT), st.new_cell(UNIT)
        c = st.new_cell(w.tree("A"))
        key = ctx.fn("<PalmTree<K, V, C> as std::hash::Hash>::hash")
        for s, v in ctx.call(st, key, [Ptr(c), Ptr(st.new_cell(Opq("hasher")))]):
            if a != "full":
                traces.setdefault(a, set()).add(s.hook["trace"])
    st = fresh_state()
    ctx.ensure("spec", st, traces.get("new") == traces.get("hollow"), "two empty trees, which are equal, are hashed differently")


def formatting(ctx, a):
    w = World(ctx, "visit", {"A": a}, formats=True)
    st = w.start()
    w.kcell, w.vcell = st.new_cell(UNIT), st.new_cell(UNIT)
    c = st.new_cell(w.tree("A"))
    for s, v in ctx.call(st, ctx.fn("<PalmTree<K, V, C> as std::fmt::Debug>::fmt"), [Ptr(c), Ptr(st.new_cell(Opq("formatter")))]):
        if "map" not in s.hook["trace"]:
            ctx.eng.note("formatting was not followed")
            continue
        op, q, last, first = w.src(s, "A")
        ctx.ensure("spec", s, not op and not q, "some entries are left out of the formatted map")
        ctx.ensure("spec", s, s.hook["trace"] == ("map", "end"), "the map's formatter is not finished")


UNIONS = [
    (T + "merge_left", "A", "vv"), (T + "merge_right", "B", "vv"), (T + "append_left", "A", "mv"), (T + "append_right", "B", "mv"),
    ("<PalmTree<K, V, C> as std::ops::Add>::add", "B", "vv"), ("<PalmTree<K, V, C> as std::ops::AddAssign>::add_assign", "B", "mv"),
    ("<PalmTree<K, V, C> as std::ops::Add<&'a PalmTree<K, V, C2>>>::add", "B", "vr"),
    ("<PalmTree<K, V, C> as std::ops::AddAssign<&'a PalmTree<K, V, C2>>>::add_assign", "B", "mr"),
]


def union_cases(debug=True, shared=False):
    out = []
    sfx = "" if debug else " release"
    for fn, bias, how in UNIONS:
        for a in KINDS:
            for b in KINDS:
                out.append(Case("%s of %s and %s%s" % (fn.replace("PalmTree<K, V, C>", "tree").replace("PalmTree::<K, V, C>::", ""), a, b, sfx), "C08", union, debug, False,
                                cost=5 if (a, b) == ("full", "full") else 1, fn=fn, a=a, b=b, bias=bias, how=how))
    return out


def from_cases(debug=True, shared=False):
    sfx = "" if debug else " release"
    return [Case("from BTreeMap of %s%s" % (b, sfx), "C09", from_map, debug, False, b=b) for b in ("hollow", "full")]


def collect_cases(debug=True, shared=False):
    out = []
    sfx = "" if debug else " release"
    out.append(Case("from_iter" + sfx, "C22", collect, debug, False, fn="<PalmTree<K, V, C> as std::iter::FromIterator<(K, V)>>::from_iter", a=None, refs=False))
    for a in KINDS:
        out.append(Case("extend %s%s" % (a, sfx), "C22", collect, debug, False, fn="<PalmTree<K, V, C> as std::iter::Extend<(K, V)>>::extend", a=a, refs=False))
        out.append(Case("extend %s by references%s" % (a, sfx), "C22", collect, debug, False, fn="<PalmTree<K, V, C> as std::iter::Extend<(&'a K, &'a V)>>::extend", a=a, refs=True))
    return out


def compare_cases(debug=True, shared=False):
    out = []
    sfx = "" if debug else " release"
    for fn in ("eq", "partial_cmp", "cmp"):
        for a in KINDS:
            for b in KINDS:
                rels = ["same"]
                if a == b == "full":
                    rels += [("keys", -1), ("keys", 1)] + [("vals", x) for x in ((-1, 1) if fn == "cmp" else (-1, 1, None))]
                for rel in rels:
                    out.append(Case("%s of %s and %s, %s%s" % (fn, a, b, rel if isinstance(rel, str) else "%s %s" % rel, sfx), "C17", comparing, debug, False,
                                    fn=fn, a=a, b=b, rel=rel, twin=False))
        for a in ("hollow", "full"):
            for rel in ["same"] + (["odd"] if a == "full" and fn != "cmp" else []):
                out.append(Case("%s of a %s tree and its clone, %s%s" % (fn, a, rel, sfx), "C17", comparing, debug, False, fn=fn, a=a, b=a, rel=rel, twin=True))
    return out


def visit_cases(debug=True, shared=False):
    sfx = "" if debug else " release"
    return [Case("hash" + sfx, "C17", hashing, debug, False)] + [Case("format %s%s" % (a, sfx), "C17", formatting, debug, False, a=a) for a in KINDS]


def all_cases(debug=True, shared=False):
    return union_cases(debug) + from_cases(debug) + collect_cases(debug) + compare_cases(debug) + visit_cases(debug)
