"""The pointer kinds: what each does with the storage it is made of.

Every other check takes the methods of PointerKind by their contract: one allocation,
read, copied on write, shared, freed through the smart pointer it was made with.
Here each implementation's MIR is analysed against that contract, for storage that
nobody else holds and for storage that others share, and so are the generic wrappers
that pass a node's type on to a kind."""
import re

from .cases import Case, Missing
from .dom import *
from .interp import Out
from .models import NONE, some
from .tree import fresh_state

SMART = {"std::boxed::Box": "Box", "std::rc::Rc": "Rc", "std::sync::Arc": "Arc"}
FN = re.compile(r"^(std::boxed::Box|std::rc::Rc|std::sync::Arc)::<T(?:, A)?>::(\w+)$")
IMPL = re.compile(r"^<(std::boxed::Box|std::rc::Rc|std::sync::Arc)<T(?:, A)?> as (.+)>::(\w+)$")
TRAIT = "crate::pointer::PointerKind::"
METHODS = ("new", "deref", "make_mut", "drop_ptr", "clone", "into_raw", "from_raw")


def smart_of(v):
    """The smart pointers a value is made of."""
    if isinstance(v, Opq) and v.t in ("smart", "kind"):
        return [v]
    if isinstance(v, Agg):
        return [y for x in v.f for y in smart_of(x)]
    return []


class Heap:
    """Allocations behind smart pointers: hook["al"] maps each to (how made, of what, alive, held here, held elsewhere)."""

    def __init__(self, ctx):
        self.ctx, self.eng = ctx, ctx.eng
        self.eng.override = self.override
        self.eng.world = self
        self.eng.drop_hook = self.dropped
        self.eng.deref_hook = self.look
        self.copies = 0

    def start(self):
        st = fresh_state()
        st.hook = {"al": (), "gone": ()}
        return st

    def al(self, st):
        return dict(st.hook["al"])

    def set(self, st, c, **kw):
        d = self.al(st)
        a = dict(d[c]) if c in d else {}
        a.update(kw)
        d[c] = tuple(sorted(a.items()))
        st.hook = {**st.hook, "al": tuple(sorted(d.items()))}

    def info(self, st, c):
        return dict(self.al(st)[c])

    def fault(self, kind, msg, st):
        self.ctx.find(kind, msg, st, site=self.where(), taint=False)

    def where(self):
        for fr, sp in reversed(self.eng.stack):
            if fr.info.b["local"]:
                return "%s (%s)" % (fr.key.replace("crate::", "").split("<A")[0], sp.replace("/repo/", ""))
        return self.ctx.case.name

    # -------------------------------------------------- allocations
    def make(self, st, how, of, value):
        c = st.new_cell(value)
        self.set(st, c, how=how, of=of, live=True, refs=1, others=False)
        return Opq("smart" if how in SMART.values() else "kind", (how, c))

    def check(self, st, v, how, of, doing):
        """The allocation a smart pointer read as `how<of>` stands for."""
        self.ctx.obligations += 1
        inside = smart_of(v)
        if len(inside) == 1:
            v = inside[0]
        else:
            if v is UNINIT or v is MOVED:
                self.fault("uninit", "storage that holds no pointer is %s as %s<%s>" % (doing, how, of), st)
                raise PathEnd()
            raise Unsupported("%s of %r" % (doing, v))
        c = v.d[1]
        a = self.info(st, c)
        if a["how"] != how or a["of"] != of:
            self.fault("type", "what was made as %s<%s> is %s as %s<%s>" % (a["how"], a["of"], doing, how, of), st)
            raise PathEnd()
        if not a["live"]:
            self.fault("freed", "a freed allocation is %s" % doing, st)
            raise PathEnd()
        return c, a

    def release(self, st, c, a):
        n = a["refs"] - 1
        if n < 0:
            self.fault("double", "a pointer is dropped that was dropped or given away before", st)
            raise PathEnd()
        self.set(st, c, refs=n)
        if n == 0 and not a["others"]:
            self.set(st, c, live=False)
            st.hook = {**st.hook, "gone": st.hook["gone"] + (st.cells[c],)}

    def dropped(self, st, v, y, ptr):
        """A smart pointer is dropped as its type says."""
        p, of = y["path"], self.eng.ty(y["args"][0])["s"] if y.get("args") else None
        if p not in SMART or v is MOVED:
            return None
        c, a = self.check(st, v, SMART[p], of, "dropped")
        self.release(st, c, a)
        for s, w in self.eng.put_in(st, st.cells[ptr.c], ptr.p, MOVED):
            s.cells[ptr.c] = w
        return [Out(st, "ret", UNIT)]

    def look(self, st, v, ptr):
        """The place a smart pointer points to, in a dereference the compiler does itself."""
        if isinstance(v, Opq) and v.t == "smart":
            return Ptr(v.d[1])
        return None

    def copy(self, v):
        self.copies += 1
        return Opq("value", ("copy of", v.d))

    # -------------------------------------------------- calls
    def override(self, c):
        path = c.get("rpath") or c["path"]
        m = FN.match(path)
        if m:
            f = getattr(self, "fn_" + m.group(2), None)
            if f is None:
                return None
            return lambda eng, st, args, c, t, depth: f(st, args, SMART[m.group(1)], self.tyname(c, 0), depth)
        m = IMPL.match(path)
        if m:
            f = getattr(self, "fn_" + m.group(3), None)
            if f is not None:
                return lambda eng, st, args, c, t, depth: f(st, args, SMART[m.group(1)], self.eng.ty((c["rargs"] if c.get("rpath") else c["args"])[0])["s"], depth)
            return None
        if c["path"].startswith(TRAIT) and c["kind"] in ("unresolved", "virtual"):
            f = getattr(self, "kind_" + c["path"][len(TRAIT):], None)
            if f is None:
                return None
            return lambda eng, st, args, c, t, depth: f(st, args, self.tyname(c, 1))
        if c["path"] == "std::clone::Clone::clone" and c["kind"] in ("unresolved", "virtual"):
            return self.user_clone
        if "NonNull" in path and path.split("::")[-1] in ("new_unchecked", "as_ptr", "as_ref", "as_mut", "from", "cast"):
            return lambda eng, st, args, c, t, depth: [Out(st, "ret", args[0])] if not isinstance(args[0], Ptr) or not self.through(st, args[0], path) else self.follow(st, args[0])
        return None

    def through(self, st, p, path):
        """as_ref and as_mut take a reference to the NonNull."""
        return path.split("::")[-1] in ("as_ref", "as_mut") and any(isinstance(v, Ptr) for _, v in self.eng.load(st.copy(), p))

    def follow(self, st, p):
        return [Out(s, "ret", v) for s, v in self.eng.load(st, p)]

    def tyname(self, c, i):
        return self.eng.ty(c["args"][i])["s"]

    def user_clone(self, eng, st, args, c, t, depth):
        out = []
        for s, v in eng.load(st, args[0]):
            if not (isinstance(v, Opq) and v.t == "value"):
                raise Unsupported("clone of %r" % (v,))
            out.append(Out(s, "ret", self.copy(v)))
        return out

    def behind(self, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported("reference %r" % (p,))
        return self.eng.load(st, p)

    def fn_new(self, st, args, how, of, depth):
        return [Out(st, "ret", self.make(st, how, of, args[0]))]

    def fn_from(self, st, args, how, of, depth):
        return self.fn_new(st, args, how, of, depth)

    def fn_leak(self, st, args, how, of, depth):
        c, _ = self.check(st, args[0], how, of, "unwrapped")
        return [Out(st, "ret", Ptr(c))]

    fn_into_raw = fn_leak

    def fn_from_raw(self, st, args, how, of, depth):
        p = args[0]
        if not (isinstance(p, Ptr) and p.c in self.al(st) and not p.p):
            raise Unsupported("from_raw of %r" % (p,))
        a = self.info(st, p.c)
        v = Opq("smart", (a["how"], p.c))
        self.check(st, v, how, of, "taken back")
        return [Out(st, "ret", v)]

    def fn_deref(self, st, args, how, of, depth):
        out = []
        for s, v in self.behind(st, args[0]):
            c, _ = self.check(s, v, how, of, "read")
            out.append(Out(s, "ret", Ptr(c)))
        return out

    fn_as_ref = fn_borrow = fn_as_ptr = fn_deref

    def fn_deref_mut(self, st, args, how, of, depth):
        out = []
        for s, v in self.behind(st, args[0]):
            c, a = self.check(s, v, how, of, "written to")
            if how != "Box" and (a["others"] or a["refs"] > 1):
                self.fault("excl", "a shared allocation is lent for writing", s)
                continue
            out.append(Out(s, "ret", Ptr(c)))
        return out

    fn_as_mut = fn_borrow_mut = fn_as_mut_ptr = fn_get_mut_unchecked = fn_deref_mut

    def fn_get_mut(self, st, args, how, of, depth):
        out = []
        for s, v in self.behind(st, args[0]):
            c, a = self.check(s, v, how, of, "written to")
            out.append(Out(s, "ret", NONE if a["others"] or a["refs"] > 1 else some(Ptr(c))))
        return out

    def fn_make_mut(self, st, args, how, of, depth):
        out = []
        for s, v in self.behind(st, args[0]):
            c, a = self.check(s, v, how, of, "written to")
            if not (a["others"] or a["refs"] > 1):
                out.append(Out(s, "ret", Ptr(c)))
                continue
            w = self.make(s, how, of, self.copy(s.cells[c]))
            self.release(s, c, a)
            for s2 in self.eng.store(s, args[0], w):
                out.append(Out(s2, "ret", Ptr(w.d[1])))
        return out

    def fn_clone(self, st, args, how, of, depth):
        out = []
        for s, v in self.behind(st, args[0]):
            c, a = self.check(s, v, how, of, "cloned")
            if how == "Box":
                out.append(Out(s, "ret", self.make(s, how, of, self.copy(s.cells[c]))))
            else:
                self.set(s, c, refs=a["refs"] + 1)
                out.append(Out(s, "ret", v))
        return out

    def fn_strong_count(self, st, args, how, of, depth):
        out = []
        for s, v in self.behind(st, args[0]):
            c, a = self.check(s, v, how, of, "read")
            n = L.of(a["refs"])
            if a["others"]:
                x = fresh("held")
                s.ge(x - 1)
                n = n + x
            out.append(Out(s, "ret", n))
        return out

    def fn_ptr_eq(self, st, args, how, of, depth):
        out = []
        for s, v in self.behind(st, args[0]):
            for s2, w in self.behind(s, args[1]):
                out.append(Out(s2, "ret", TRUE if pointers(smart_of(v)) == pointers(smart_of(w)) else FALSE))
        return out

    # -------------------------------------------------- a kind, by its contract
    def kind_new(self, st, args, of):
        return [Out(st, "ret", self.make(st, "kind", of, args[0]))]

    def kind_deref(self, st, args, of):
        return self.fn_deref(st, args, "kind", of, 0)

    def kind_make_mut(self, st, args, of):
        return self.fn_make_mut(st, args, "kind", of, 0)

    def kind_clone(self, st, args, of):
        return self.fn_clone(st, args, "kind", of, 0)

    def kind_drop_ptr(self, st, args, of):
        out = []
        for s, v in self.behind(st, args[0]):
            c, a = self.check(s, v, "kind", of, "dropped")
            self.release(s, c, a)
            out.append(Out(s, "ret", UNIT))
        return out

    def kind_into_raw(self, st, args, of):
        return self.fn_leak(st, args, "kind", of, 0)

    def kind_from_raw(self, st, args, of):
        p = args[0]
        if not (isinstance(p, Ptr) and p.c in self.al(st) and not p.p):
            raise Unsupported("from_raw of %r" % (p,))
        v = Opq("kind", ("kind", p.c))
        self.check(st, v, "kind", of, "taken back")
        return [Out(st, "ret", v)]


VALUE = Opq("value", "the value")


def is_copy(v):
    return isinstance(v, Opq) and v.t == "value" and v.d == ("copy of", VALUE.d)


def pointers(vs):
    return [v.d for v in vs]


def made(ctx, h, key, of):
    """Storage as the implementation's own constructor makes it: [(state, storage, allocation)]"""
    out = []
    for s, v in ctx.call(h.start(), key, [VALUE]):
        ps = smart_of(v)
        ctx.obligations += 1
        if len(ps) != 1:
            ctx.find("spec", "a new pointer does not hold the value it was given", s)
            continue
        c = ps[0].d[1]
        a = h.info(s, c)
        if s.cells[c] != VALUE or not a["live"] or a["refs"] != 1 or len(h.al(s)) != 1:
            ctx.find("spec", "a new pointer does not own just the value it was given", s)
            continue
        out.append((s, v, c))
    return out


def using(ctx, impl, method, others, kind):
    """One method of one implementation (kind: by contract, through the generic wrapper)."""
    h = Heap(ctx)
    key = method_key(ctx, impl, method, kind)
    for s, v, c in made(ctx, h, method_key(ctx, impl, "new", kind), "A"):
        how = h.info(s, c)["how"]
        if others:
            if how == "Box":
                return
            h.set(s, c, others=True)
        run_method(ctx, h, s, v, c, how, key, method, others, kind)


def method_key(ctx, impl, method, kind):
    for k in ctx.prog.bodies:
        if not kind and k == "crate::%s::%s<A>" % (impl, method):
            return k
        if kind and re.match(r"^crate::(pointer::Pointer::<A, Kind>|<pointer::Pointer<A, Kind> as .*>)::%s<A,Kind(,B)?>$" % method, k):
            return k
    raise Missing("%s::%s" % (impl, method))


def run_method(ctx, h, s, v, c, how, key, method, others, kind):
    cast = key.endswith("<A,Kind,B>")
    if cast and method != "cast_into":
        h.set(s, c, of="B")         # a pointer whose type is erased, used as what it was made for
    of = h.info(s, c)["of"]
    info = ctx.prog.info(key)
    by_ref = ctx.eng.ty(info.locals[1])["k"] in ("ref", "ptr")
    cell = None
    if method in ("new", "from"):
        args = None
    elif method == "from_raw":
        args = [Ptr(c)]
    elif by_ref:
        cell = s.new_cell(v)
        args = [Ptr(cell)]
    else:
        args = [v]
    if args is None:
        return
    for o, r in ctx.call(s, key, args):
        ctx.outcomes += 1
        als = h.al(o)
        a = h.info(o, c)
        now = smart_of(o.cells[cell]) if cell is not None else []
        bad = lambda msg: ctx.find("spec", "%s: %s" % (method, msg), o)
        ctx.obligations += 3
        spare = [x for x in als if x != c and h.info(o, x)["live"]]
        if method in ("deref", "deref_cast"):
            if r != Ptr(c):
                bad("what is lent is not the value of the pointer")
            if not a["live"] or a["refs"] != 1 or pointers(now) != pointers(smart_of(v)) or spare:
                bad("reading a pointer changes it")
        elif method in ("make_mut", "make_mut_cast"):
            if others:
                if len(now) != 1 or now[0].d[1] == c or not isinstance(r, Ptr) or r.p or now[0].d[1] != r.c:
                    bad("the pointer to a shared value is not replaced by one to a copy of it")
                elif not is_copy(o.cells[r.c]) or h.info(o, r.c)["refs"] != 1 or h.info(o, r.c)["of"] != of or len(spare) != 1:
                    bad("what is lent is not an own copy of the value")
                elif a["refs"] != 0:
                    bad("the shared value is not let go of")
            elif r != Ptr(c) or pointers(now) != pointers(smart_of(v)) or a["refs"] != 1 or not a["live"] or spare:
                bad("what is lent for writing is not the pointer's own value")
        elif method in ("drop_ptr", "drop"):
            if a["refs"] != 0 or spare:
                bad("the pointer is not let go of")
            elif a["live"] != others or len(o.hook["gone"]) != (0 if others else 1):
                bad("the value is not freed exactly when its last pointer goes")
        elif method == "clone":
            got = smart_of(r)
            if len(got) != 1 or pointers(now) != pointers(smart_of(v)) or not a["live"]:
                bad("a clone is not one pointer besides the original")
            elif got[0].d[1] == c:
                if a["refs"] != 2 or how == "Box" or spare:
                    bad("a clone shares the value without being counted")
            elif a["refs"] != 1 or not is_copy(o.cells[got[0].d[1]]) or h.info(o, got[0].d[1])["of"] != of or len(spare) != 1:
                bad("a clone does not hold a copy of the value")
        elif method == "into_raw":
            if r != Ptr(c) or a["refs"] != 1 or not a["live"] or spare:
                bad("what comes out is not the pointer's value, still owned")
        elif method in ("from_raw", "cast_into"):
            got = smart_of(r)
            if len(got) != 1 or got[0].d[1] != c or a["refs"] != 1 or not a["live"] or spare:
                bad("what comes out is not a pointer to the same value, still owned")


def kinds(prog):
    out = {}
    for k in prog.bodies:
        m = re.match(r"^crate::(<(\S+) as pointer::PointerKind>)::(\w+)<A>$", k)
        if m:
            out.setdefault((m.group(1), m.group(2)), []).append(m.group(3))
    return out


WRAPPED = ("deref", "make_mut", "drop", "clone", "cast_into", "deref_cast", "make_mut_cast")


def kind_cases(debug=True):
    from .cases import program
    out = []
    sfx = "" if debug else " release"
    for (name, short), ms in sorted(kinds(program(debug)).items()):
        for m in sorted(ms):
            for others in (False, True):
                if m == "new" and others:
                    continue
                out.append(Case("%s::%s%s%s" % (short, m, " while shared" if others else "", sfx), "C15", using, debug, impl=name, method=m, others=others, kind=False))
    for m in WRAPPED:
        for others in (False, True):
            out.append(Case("Pointer::%s%s%s" % (m, " while shared" if others else "", sfx), "C15", using, debug, impl="pointer::Pointer", method=m, others=others, kind=True))
    return out


def all_cases(debug=True, shared=False):
    return kind_cases(debug)
