"""Models of what the analysed code calls outside itself: the standard library's
pointers, slices and vectors, user code reached through trait bounds, and the
pointer kinds by their contract (which C15 checks for each implementation)."""
from .lin import L
from .dom import *
from .interp import Out, add_index, tidy, seg_take, short

BRANCH, LEAF = "crate::branch::Branch", "crate::leaf::Leaf"
ARRAY = "crate::array::Array"


def ret(st, v=UNIT):
    return [Out(st, "ret", v)]


# ---------------------------------------------------------------- types

def transparent_agg(eng, t, vs):
    return vs[0] if vs else UNIT


def wrap_node(eng, ety, h):
    y = eng.ty(ety)
    if eng.is_kind(ety):
        return h
    if y["k"] == "adt":
        if y["phantom"]:
            return UNIT
        if eng.transparent(ety):
            return wrap_node(eng, y["args"][0], h)
        if y["kind"] == "struct":
            return Agg(0, tuple(wrap_node(eng, f[1], h) for f in y["variants"][0]["fields"]))
    if y["k"] == "tuple" and not y["ts"]:
        return UNIT
    raise Unsupported("node handle type " + y["s"])


def unwrap_handle(v):
    if isinstance(v, Handle):
        return v
    if isinstance(v, Agg):
        for x in v.f:
            h = unwrap_handle(x)
            if h is not None:
                return h
    return None


def deref_value(eng, st, v, ptr):
    hook = getattr(eng, "deref_hook", None)
    if hook:
        p = hook(st, v, ptr)
        if p is not None:
            return p
    if isinstance(v, Opq):
        return Ptr(st.new_cell(v))
    raise Unsupported("dereference of %r" % (v,))


def cap_of(s):
    two = "<C2 as" in s
    if "BranchSize" in s:
        return L.sym("BC2") if two else BC
    if "LeafSize" in s:
        return L.sym("LC2") if two else LC
    return None


def unevaluated(eng, c):
    if "USIZE" in c["path"] and c["args"]:
        s = eng.tstr(c["args"][0])
        r = cap_of(s)
        if r is not None:
            return r
        import re
        m = re.findall(r"B([01])\b", s)
        if m and "UTerm" in s:
            return L.of(int("".join(m), 2))
    raise Unsupported("constant " + c["path"])


def array_alias(eng, t):
    """(capacity, element kind, element type) of `<N as ArrayLength<T>>::ArrayType`."""
    y = eng.ty(t)
    if y["k"] != "alias" or "ArrayLength<" not in y["s"] or not y["s"].endswith("::ArrayType"):
        return None
    s = y["s"]
    cap = cap_of(s)
    if cap is None:
        return None
    el = s[s.index("ArrayLength<") + len("ArrayLength<"):-len(">>::ArrayType")]
    for i, t in enumerate(eng.prog.types):
        if t["s"] == el:
            return cap, ("K" if el == "K" else "V" if el == "V" else "N"), i
    raise Unsupported("array of " + el)


def transmute(eng, st, v, frm, to):
    return v


# ---------------------------------------------------------------- nodes

def node_fields(eng, t):
    """Field numbers of a node struct by what they hold."""
    c = eng.__dict__.setdefault("_nf", {})
    r = c.get(t)
    if r is not None:
        return r
    y = eng.ty(t)
    r = {"n": len(y["variants"][0]["fields"])}
    for i, (_, ft) in enumerate(y["variants"][0]["fields"]):
        f = eng.ty(ft)
        if f["k"] == "bool":
            k = "hb"
        elif f["k"] == "int" and f["s"] == "usize":
            k = "len"
        elif f["k"] == "adt" and f["path"] == ARRAY:
            e = eng.ty(f["args"][0])
            k = "keys" if e["s"] == "K" else "vals" if e["s"] == "V" else "kids"
            r[k + "_t"] = ft
        elif f["k"] == "adt" and f["phantom"]:
            continue
        else:
            raise Unsupported("node field of type " + f["s"])
        if k in r:
            raise Unsupported("two node fields of one kind")
        r[k] = i
    c[t] = r
    return r


def array_value(eng, ft, arr_of):
    y = eng.ty(ft)
    a = array_alias(eng, ft)
    if a is not None:
        return arr_of(*a)
    if y["k"] == "adt":
        if eng.transparent(ft):
            return array_value(eng, y["args"][0], arr_of)
        if y["phantom"]:
            return UNIT
        # the struct's field types are those of its definition, instantiated
        return Agg(0, tuple(array_value(eng, f[1], arr_of) for f in y["variants"][0]["fields"]))
    raise Unsupported("array representation " + y["s"])


def find_arr(v):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Agg):
        for x in v.f:
            a = find_arr(x)
            if a is not None:
                return a
    return None


def arr_path(v, p=()):
    if isinstance(v, Arr):
        return p
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            q = arr_path(x, p + (i,))
            if q is not None:
                return q
    return None


def node_types(eng):
    r = eng.__dict__.get("_nt")
    if r is None:
        r = {}
        for i, t in enumerate(eng.prog.types):
            if t["k"] == "adt" and t["path"] in (BRANCH, LEAF) and t["s"].endswith("<K, V, C>"):
                r.setdefault(t["path"], i)
        eng._nt = r
    return r


def build_node(eng, st, oid):
    """The struct value a node described by an origin has."""
    o = st.orgs[oid]
    t = node_types(eng)[LEAF if o.lv == 0 else BRANCH]
    nf = node_fields(eng, t)
    f = [UNIT] * nf["n"]

    def arr(cap, e, ety):
        if e == "K":
            seg = (o.n, "G", o.s, None) if o.lv == 0 else (o.n, "S", oid, ZERO)
        elif e == "V":
            seg = (o.n, "G", o.s, None)
        else:
            seg = (o.n, "C", oid, ZERO)
        return Arr((seg, (cap - o.n, "U", None, None)), cap, e, ety)

    for k in ("keys", "vals", "kids"):
        if k in nf:
            f[nf[k]] = array_value(eng, nf[k + "_t"], arr)
    f[nf["len"]] = o.n
    if o.lv > 0:
        f[nf["hb"]] = TRUE if o.lv > 1 else FALSE
    return Agg(0, tuple(f))


def cell_of_origin(eng, st, oid, excl):
    c = st.mat.get(oid)
    if c is None:
        v = build_node(eng, st, oid)
        c = st.new_cell(v)
        st.mat[oid] = c
        st.nodes[c] = NodeInfo(oid, st.orgs[oid].lv, excl, v)
    return c


def resolve(eng, st, h):
    """The node a handle designates: [(state, cell)]"""
    if h is UNINIT or h is MOVED:
        eng.issue(st, "uninit", "a node pointer that was moved out or never written is used")
    if not isinstance(h, Handle):
        raise Unsupported("node pointer %r" % (h,))
    if not isinstance(h.n, tuple):
        return [(st, h.n)]
    _, oid, j = h.n
    out = []
    for s, k in st.kid(oid, j):
        pc = s.mat.get(oid)
        excl = pc is not None and s.nodes[pc].excl
        out.append((s, cell_of_origin(eng, s, k, excl)))
    return out


def type_check(eng, st, cell, a):
    y = eng.ty(a)
    n = st.nodes.get(cell)
    if n is None:
        raise Unsupported("node identity")
    if n.freed:
        eng.issue(st, "freed", "a node that was freed is used")
    if y["k"] == "adt" and y["path"] in (BRANCH, LEAF):
        want = 0 if y["path"] == LEAF else 1
        if (n.lv > 0) != (want > 0):
            eng.issue(st, "type", "a %s is used as a %s" % (("leaf", "branch")[n.lv > 0], ("leaf", "branch")[want]))
    elif y["k"] == "tuple":
        eng.issue(st, "type", "a node is used without its type")


def kind_deref(eng, st, args, c, t, depth):
    out = []
    for s, h in eng.load(st, args[0]):
        for s2, cell in resolve(eng, s, h):
            type_check(eng, s2, cell, c["args"][1])
            out.append(Out(s2, "ret", Ptr(cell)))
    return out


def is_clean(st, cell):
    n = st.nodes[cell]
    if n.oid is None or st.cells.get(cell) is not n.clean:
        return False
    for _, k in st.orgs[n.oid].kids:
        if k in st.mat and not is_clean(st, st.mat[k]):
            return False
    return True


def copy_origin(st, oid, parent=None):
    """A second tree of the same contents: a new origin with the same numbers."""
    o = st.orgs[oid]
    n = st.nid
    st.nid += 1
    c = o.copy()
    c.id, c.parent = n, parent
    st.orgs[n] = c
    kids = []
    for j, k in o.kids:
        kids.append((j, copy_origin(st, k, (n, j))))
    c = c.copy()
    c.kids = tuple(kids)
    st.orgs[n] = c
    return n


def user_panic(eng, st, what):
    """The other outcome of calling user code, when that is being considered."""
    eng.user_calls += 1
    if not eng.unwind or st.unwinding:
        return []
    s = st.copy()
    s.unwinding = True
    s.trail = s.trail + (what,)
    return [Out(s, "unwind")]


def clone_node(eng, st, cell):
    """A fresh node with a deep copy of the contents of an unmodified one."""
    if not is_clean(st, cell):
        return clone_modified(eng, st, cell)
    oid = copy_origin(st, st.nodes[cell].oid)
    return cell_of_origin(eng, st, oid, True)


def clone_modified(eng, st, cell):
    """The same for a node that was changed, or never was part of a tree at the start."""
    nd = st.nodes[cell]
    copies = {}

    def seg(s, ety):
        n, k, x, o = s
        if k == "1":
            h = unwrap_handle(x)
            if h is not None and not isinstance(h.n, tuple):
                return (n, k, wrap_node(eng, ety, Handle(clone_node(eng, st, h.n))), o)
            return s
        if k == "C":
            for _, kid in st.orgs[x].kids:
                if kid in st.mat and not is_clean(st, st.mat[kid]):
                    raise Unsupported("copying a node whose children were changed in place")
            if x not in copies:
                copies[x] = copy_origin(st, x)
            return (n, k, copies[x], o)
        return s

    def value(v):
        if isinstance(v, Arr):
            return Arr([seg(s, v.ety) for s in v.s], v.cap, v.e, v.ety)
        if isinstance(v, Agg):
            return Agg(v.v, tuple(value(x) for x in v.f))
        return v
    c = st.new_cell(value(st.cells[cell]))
    st.nodes[c] = NodeInfo(None, nd.lv, True)
    return c


def kind_make_mut(eng, st, args, c, t, depth):
    out = []
    for s, h in eng.load(st, args[0]):
        for s2, cell in resolve(eng, s, h):
            type_check(eng, s2, cell, c["args"][1])
            if s2.nodes[cell].excl:
                out.append(Out(s2, "ret", Ptr(cell)))
                continue
            out.extend(user_panic(eng, s2, "clone"))
            n = clone_node(eng, s2, cell)
            s2.nodes[cell] = s2.nodes[cell].but(freed=True)
            out.extend(Out(s3, "ret", Ptr(n)) for s3 in eng.store(s2, args[0], Handle(n)))
    return out


def share(st, cell):
    st.nodes[cell] = st.nodes[cell].but(excl=False)
    oid = st.nodes[cell].oid
    if oid is not None:
        for _, k in st.orgs[oid].kids:
            if k in st.mat:
                share(st, st.mat[k])


def kind_clone(eng, st, args, c, t, depth):
    out = []
    for s, h in eng.load(st, args[0]):
        for s2, cell in resolve(eng, s, h):
            type_check(eng, s2, cell, c["args"][1])
            out.extend(user_panic(eng, s2, "clone"))
            n = clone_node(eng, s2, cell)
            share(s2, cell)
            s2.nodes[n] = s2.nodes[n].but(excl=False)
            out.append(Out(s2, "ret", Handle(n)))
    return out


def kind_new(eng, st, args, c, t, depth):
    y = eng.ty(c["args"][1])
    if y["k"] != "adt" or y["path"] not in (BRANCH, LEAF):
        raise Unsupported("allocation of " + y["s"])
    cell = st.new_cell(args[0])
    st.nodes[cell] = NodeInfo(None, 0 if y["path"] == LEAF else 1, True)
    st.hook = dict(st.hook)
    return ret(st, Handle(cell))


def free(eng, st, cell):
    """Mark a node and what it owns as gone."""
    n = st.nodes[cell]
    if n.freed:
        eng.issue(st, "double", "a node is freed twice")
    st.nodes[cell] = n.but(freed=True)


def check_slots(eng, st, v, y):
    """A node about to be dropped: its first `len` slots are live and nothing beyond is."""
    nf = node_fields(eng, type_id(eng, y))
    if not isinstance(v, Agg):
        eng.issue(st, "uninit", "a moved or uninitialised node is dropped")
    n = v.f[nf["len"]]
    if not isinstance(n, L):
        raise Unsupported("node length")
    for k in ("keys", "vals", "kids"):
        if k not in nf:
            continue
        a = find_arr(v.f[nf[k]])
        if a is None:
            eng.issue(st, "uninit", "a node with uninitialised storage is dropped")
        o = ZERO
        for seg in a.s:
            e = o + seg[0]
            if seg[1] == "U":
                for s in st.copy().where(cand(ge(seg[0] - 1), ge(n - o - 1))):
                    eng.try_issue(s, "uninit", "a node is dropped while one of its slots is not live: entry dropped twice")
                    break
            elif not spared(st, a.e):
                for s in st.copy().where(cand(ge(seg[0] - 1), ge(e - n - 1))):
                    eng.try_issue(s, "leak", "a node is dropped while a live element lies beyond its length: entry leaked")
                    break
            o = e


def type_id(eng, y):
    return node_types(eng)[y["path"]]


def drop_node_value(eng, st, v, y):
    """Contract of dropping a node: [state]. Its children are dropped with it, as what its flag says."""
    check_slots(eng, st, v, y)
    if y["path"] == LEAF:
        return [st]
    nf = node_fields(eng, type_id(eng, y))
    hb = v.f[nf["hb"]]
    arr = find_arr(v.f[nf["kids"]])
    for seg in arr.s:
        if seg[1] == "U":
            continue
        if seg[1] == "1":
            h = unwrap_handle(seg[2])
            if h is None:
                eng.issue(st, "uninit", "a node with a moved child is dropped")
            cells = [h.n]
        else:
            oid = seg[2]
            kl = st.orgs[oid].lv - 1
            check_child_level(eng, st, hb, kl)
            cells = []
            for j, k in st.orgs[oid].kids:
                if k in st.mat and st.prove(j - seg[3]) and st.prove(seg[3] + seg[0] - 1 - j):
                    cells.append(st.mat[k])
            for cl in cells:
                if not st.nodes[cl].freed and not is_clean(st, cl):
                    st = drop_cell(eng, st, cl)
                elif not st.nodes[cl].freed:
                    free(eng, st, cl)
            continue
        for cl in cells:
            check_child_level(eng, st, hb, st.nodes[cl].lv)
            st = drop_cell(eng, st, cl)
    return [st]


def check_child_level(eng, st, hb, lv):
    if not isinstance(hb, Cond):
        raise Unsupported("branch flag")
    for s in st.copy().where(hb if lv == 0 else hb.neg()):
        eng.try_issue(s, "type", "a %s is dropped as a %s" % (("leaf", "branch") if lv == 0 else ("branch", "leaf")))


def drop_cell(eng, st, cell):
    n = st.nodes[cell]
    v = st.cells[cell]
    free(eng, st, cell)
    y = eng.ty(node_types(eng)[LEAF if n.lv == 0 else BRANCH])
    if n.oid is not None and v is n.clean and is_clean(st, cell):
        return st
    return drop_node_value(eng, st, v, y)[0]


def kind_drop(eng, st, args, c, t, depth):
    out = []
    for s, h in eng.load(st, args[0]):
        for s2, cell in resolve(eng, s, h):
            type_check(eng, s2, cell, c["args"][1])
            if getattr(eng, "drop_bodies", False):
                out.extend(drop_body(eng, s2, cell, args[0], depth))
                continue
            s3 = drop_cell(eng, s2, cell)
            s3 = mark_moved(eng, s3, args[0])
            out.extend(user_panic(eng, s3, "drop"))
            out.append(Out(s3, "ret", UNIT))
    return out


def drop_body(eng, st, cell, ptr, depth):
    """Drop a node by what its own code does, then free it: all it holds must have been dropped."""
    n = st.nodes[cell]
    if n.freed:
        eng.issue(st, "double", "a node is freed twice")
    ty = node_types(eng)[LEAF if n.lv == 0 else BRANCH]
    nf = node_fields(eng, ty)
    out = []
    for o in eng.drop_at(st, Ptr(cell), ty, depth):
        if o.k != "ret":
            out.append(o)
            continue
        s = o.st
        v = s.cells[cell]
        if isinstance(v, Agg):
            for k in ("keys", "vals", "kids"):
                a = find_arr(v.f[nf[k]]) if k in nf else None
                for seg in a.s if a is not None and not spared(s, a.e) else ():
                    if seg[1] != "U":
                        for x in s.copy().where(ge(seg[0] - 1)):
                            eng.try_issue(x, "leak", "a node's destructor leaves one of its %s undropped" % {"keys": "keys", "vals": "values", "kids": "children"}[k])
                            break
        s.nodes[cell] = s.nodes[cell].but(freed=True)
        s = mark_moved(eng, s, ptr)
        out.append(Out(s, "ret", UNIT))
    return out


def mark_moved(eng, st, ptr):
    for s, v in eng.put_in(st, st.cells[ptr.c], ptr.p, MOVED):
        s.cells[ptr.c] = v
        return s


def drop_model(eng, st, ptr, t, depth):
    y = eng.ty(t)
    hook = getattr(eng, "drop_hook", None)
    if hook and y["k"] == "adt" and not y["path"].startswith("crate::"):
        out = []
        for s, v in eng.load(st.copy(), ptr):
            r = hook(s, v, y, ptr)
            if r is None:
                break
            out.extend(r)
        else:
            return out
    if getattr(eng, "opaque_drop", False):
        r = [v for _, v in eng.load(st.copy(), ptr)]
        if any(isinstance(v, (Opq, Key, Val)) for v in r):
            return ret(st)
    if y["k"] == "adt" and y["path"] in (BRANCH, LEAF) and not getattr(eng, "drop_bodies", False):
        out = []
        for s, v in eng.load(st, ptr):
            for s2 in drop_node_value(eng, s, v, y):
                s2 = mark_moved(eng, s2, ptr)
                out.extend(user_panic(eng, s2, "drop"))
                out.append(Out(s2, "ret", UNIT))
        return out
    if y["k"] == "adt" and not y["path"].startswith("crate::"):
        p = y["path"]
        if p.endswith("ArrayVec"):
            return ret(st)
        if p.endswith("::Vec") or p.endswith("vec::IntoIter"):
            return drop_vec(eng, st, ptr, y, depth)
        if p.endswith("::Map") or p.endswith("::Rev") or p.endswith("::Peekable") or p.endswith("Enumerate") or p.endswith("::Fuse"):
            return None
        if p.endswith("::Option") or p.endswith("::Result") or p.endswith("ControlFlow") or p.endswith("::Bound"):
            return None
        if p.endswith("String") or "fmt" in p:
            return ret(st)
    if y["k"] == "closure" and not any(eng.needs_drop(x) for x in y["ups"]):
        return ret(st)
    return None


def drop_vec(eng, st, ptr, y, depth):
    et = y["args"][0]
    outs = []
    for s, v in eng.load(st, ptr):
        if not isinstance(v, Seq):
            if isinstance(v, Opq):
                return ret(s)
            raise Unsupported("drop of a vector")
        cur = [Out(s, "ret", UNIT)]
        for i, it in enumerate(v.items):
            nxt = []
            for o in cur:
                if o.k != "ret":
                    nxt.append(o)
                    continue
                nxt.extend(eng.drop_at(o.st, Ptr(ptr.c, ptr.p + (("i", L.of(i)),)), et, depth))
            cur = nxt
        outs.extend(cur)
    return outs


def drop_user(eng, st, ptr, t):
    """User code dropping a key, a value or something else given by the caller."""
    out = []
    for s, v in eng.load(st, ptr):
        if v is UNINIT or v is MOVED:
            eng.try_issue(s, "uninit", "a %s that is not live is dropped" % eng.tstr(t))
            continue
        if isinstance(v, (Key, Val)):
            if ptr.c in s.nodes and not s.nodes[ptr.c].excl:
                eng.try_issue(s, "excl", "an entry of a node that may be shared is dropped in place")
                continue
            s.log = s.log + (("drop", v),) if getattr(eng, "log_drops", False) else s.log
            if in_node(s, ptr):
                s = mark_moved(eng, s, ptr)
        out.extend(user_panic(eng, s, "drop"))
        out.append(Out(s, "ret", UNIT))
    return out


def in_node(st, ptr):
    return ptr.c in st.nodes or any(isinstance(x, tuple) for x in ptr.p)


# ---------------------------------------------------------------- array ranges

def split_at(eng, st, segs, pos):
    """Split segments at a position: [(state, left, right)]"""
    out = []
    pos = st.sys.red(L.of(pos))
    good, bad = st.branch(ge(pos))
    for s in bad:
        eng.try_issue(s, "oob", "a range starts before a node's array")
    for st in good:
        o = ZERO
        cur = [st]
        for k, seg in enumerate(segs):
            nxt = []
            for s in cur:
                ins, outs = s.branch(ge(o + seg[0] - pos))
                for a in ins:
                    left = list(segs[:k]) + [seg_take(seg, ZERO, pos - o)]
                    right = [seg_take(seg, pos - o, seg[0] - (pos - o))] + list(segs[k + 1:])
                    out.append((a, left, right))
                nxt.extend(outs)
            cur = nxt
            o = o + seg[0]
            if not cur:
                break
        for s in cur:
            eng.try_issue(s, "oob", "a range ends past the capacity of a node's array")
    return [x for x in out if not x[0].dead()]


def base_index(ptr):
    """(pointer to the array, index)"""
    if ptr.p and isinstance(ptr.p[-1], tuple) and ptr.p[-1][0] == "i":
        return Ptr(ptr.c, ptr.p[:-1]), ptr.p[-1][1]
    return Ptr(ptr.c, ptr.p), ZERO


def arr_at(eng, st, ptr):
    """The array a pointer points into: [(state, array pointer, array, index)]"""
    b, i = base_index(ptr)
    out = []
    for s, v in eng.load(st, b):
        if not isinstance(v, Arr):
            if v is UNINIT or v is MOVED:
                eng.try_issue(s, "uninit", "storage that was moved or never set up is accessed")
                continue
            raise Unsupported("range over %r" % (v,))
        out.append((s, b, v, i))
    return out


def cut_range(eng, st, arr, i, n):
    """[(state, before, middle, after)] for [i, i + n)"""
    out = []
    for s, left, rest in split_at(eng, st, arr.s, i):
        for s2, mid, right in split_at(eng, s, rest, n):
            out.append((s2, left, mid, right))
    return out


def set_arr(eng, st, b, arr, segs):
    v = Arr(tidy(st, segs), arr.cap, arr.e, arr.ety)
    out = []
    for s, nv in eng.put_in(st, st.cells[b.c], b.p, v):
        s.cells[b.c] = nv
        out.append(s)
    return out


def check_write(eng, st, b):
    n = st.nodes.get(b.c)
    if n is not None:
        if n.freed:
            eng.issue(st, "freed", "a node that was freed is written to")
        if not n.excl:
            eng.issue(st, "excl", "a node that may be shared with another tree is written to without being made exclusive first")


def copy_range(eng, st, src, dst, n):
    """Move n elements: [state]"""
    if src.c is None or dst.c is None:
        if st.prove(-n):
            return [st]
        eng.issue(st, "null", "a null pointer is copied from or to")
    out = []
    n = L.of(n)
    neg, pos = [], [st]
    if not st.q(n):
        pos, neg = st.branch(ge(n))
    for s in neg:
        eng.try_issue(s, "oob", "a negative number of elements is copied")
    for st in pos:
        for s, b, arr, i in arr_at(eng, st, src):
            check_write(eng, s, b)
            for s2, left, mid, right in cut_range(eng, s, arr, i, n):
                for s3 in set_arr(eng, s2, b, arr, left + [(n, "U", None, None)] + right):
                    for s4, b2, arr2, i2 in arr_at(eng, s3, dst):
                        check_write(eng, s4, b2)
                        for s5, l2, m2, r2 in cut_range(eng, s4, arr2, i2, n):
                            if not spared(s5, arr2.e):
                                check_dead(eng, s5, m2)
                            out.extend(set_arr(eng, s5, b2, arr2, l2 + mid + r2))
    return out


def check_dead(eng, st, segs):
    for seg in segs:
        if seg[1] != "U":
            for s in st.copy().where(ge(seg[0] - 1)):
                eng.try_issue(s, "leak", "a live element of a node is overwritten without being dropped")
                break


def check_live(eng, st, segs, what):
    for seg in segs:
        if seg[1] == "U":
            for s in st.copy().where(ge(seg[0] - 1)):
                eng.try_issue(s, "uninit", what)
                break


# ---------------------------------------------------------------- the table

TABLE = {}
PREFIX = []


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def find(eng, c):
    hook = getattr(eng, "override", None)
    if hook:
        f = hook(c)
        if f is not None:
            return f
    f = TABLE.get(c.get("rpath") or c["path"])
    if f is None and c.get("rpath") and c["kind"] in ("unresolved", "virtual"):
        f = TABLE.get(c["path"])
    if f is None:
        p = c.get("rpath") or c["path"]
        for pre, g in PREFIX:
            if p.startswith(pre):
                return g
    if f is not None and c["kind"] == "item" and (c.get("rpath") or c["path"]) in RESOLVED_ONLY_UNRESOLVED:
        return None
    return f


RESOLVED_ONLY_UNRESOLVED = set()

for _n, _f in (("deref", kind_deref), ("make_mut", kind_make_mut), ("new", kind_new), ("drop_ptr", kind_drop), ("clone", kind_clone)):
    TABLE["crate::pointer::PointerKind::" + _n] = _f


def prefix(*names):
    def deco(f):
        for n in names:
            PREFIX.append((n, f))
        return f
    return deco


def tgt(eng, c, i=0):
    return c["args"][i]


# panics
@prefix("core::panicking::", "std::rt::begin_panic", "std::rt::panic_fmt", "core::option::", "core::result::", "std::option::expect_failed",
        "std::option::unwrap_failed", "std::result::unwrap_failed", "core::slice::index::slice_", "core::panic", "arrayvec::arrayvec::panic_oob")
def panics(eng, st, args, c, t, depth):
    if t is not None and t.get("t") is not None:
        p = c.get("rpath") or c["path"]
        if c.get("key") in eng.prog.bodies:
            return eng.call_body(st, c["key"], args, c, depth)
        raise Unsupported("call of " + p)
    p = (c.get("rpath") or c["path"]).rsplit("::", 1)[-1]
    return eng.panic(st, p)


# opaque
@prefix("core::fmt::", "std::fmt::", "std::any::type_name", "std::string::String::", "<std::string::String as")
def opaque(eng, st, args, c, t, depth):
    return ret(st, Opq("fmt"))


@prefix("std::arch::", "core::core_arch::", "std::intrinsics::prefetch", "std::hint::")
def nothing(eng, st, args, c, t, depth):
    p = c.get("rpath") or c["path"]
    if p.endswith("unreachable_unchecked"):
        eng.issue(st, "unreachable", "code marked unreachable is reached")
    if p.endswith("black_box"):
        return ret(st, args[0])
    return ret(st)


@model("std::hint::assert_unchecked", "std::intrinsics::assume", "std::intrinsics::cold_path", "std::intrinsics::likely")
def noop(eng, st, args, c, t, depth):
    return ret(st, args[0] if args and c["path"].endswith("likely") else UNIT)


@model("std::intrinsics::size_of", "std::mem::size_of")
def size_of(eng, st, args, c, t, depth):
    x = fresh("z")
    st.ge(x)
    return ret(st, x)


def spared(st, e):
    """Elements of this kind ('K' or 'V') are of a type that has nothing to drop, on this path."""
    return e in st.hook.get("plain", ())


@model("std::mem::needs_drop", "std::intrinsics::needs_drop")
def _(eng, st, args, c, t, depth):
    ty = c["args"][0]
    if not eng.needs_drop(ty):
        return ret(st, FALSE)
    ps = eng.params(ty)
    if ps is None or not ps <= {"K", "V"} or ps & st.hook.get("drops", frozenset()):
        return ret(st, TRUE)
    if ps <= st.hook.get("plain", frozenset()):
        return ret(st, FALSE)
    yes, no = st.copy(), st.copy()
    no.hook = dict(no.hook, plain=no.hook.get("plain", frozenset()) | ps)
    if len(ps) == 1:
        yes.hook = dict(yes.hook, drops=yes.hook.get("drops", frozenset()) | ps)
    return [Out(yes, "ret", TRUE), Out(no, "ret", FALSE)]


# slices
def slice_len(v):
    if not isinstance(v, Ptr) or v.m is None:
        raise Unsupported("length of %r" % (v,))
    return v.m


@model("core::slice::<impl [T]>::len")
def _(eng, st, args, c, t, depth):
    return ret(st, slice_len(args[0]))


@model("core::slice::<impl [T]>::is_empty")
def _(eng, st, args, c, t, depth):
    return ret(st, eq(slice_len(args[0])))


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def get_unchecked(eng, st, args, c, t, depth):
    i = args[1]
    if not isinstance(i, L):
        if i is UNINIT or i is MOVED:
            eng.issue(st, "uninit", "an uninitialised index is used")
        raise Unsupported("slice index")
    out = []
    good, bad = st.branch(cand(ge(i), ge(slice_len(args[0]) - 1 - i)))
    for s in bad:
        eng.try_issue(s, "oob", "an element outside a slice is accessed without a bounds check")
    for s in good:
        out.append(Out(s, "ret", add_index(Ptr(args[0].c, args[0].p), i)))
    return out


def some(v):
    return Agg(1, (v,))


NONE = Agg(0, ())


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _(eng, st, args, c, t, depth):
    i = args[1]
    if not isinstance(i, L):
        raise Unsupported("slice index")
    good, bad = st.branch(ge(slice_len(args[0]) - 1 - i))
    return [Out(s, "ret", some(add_index(Ptr(args[0].c, args[0].p), i))) for s in good] + [Out(s, "ret", NONE) for s in bad]


def end_elem(last):
    def f(eng, st, args, c, t, depth):
        n = slice_len(args[0])
        good, bad = st.branch(ge(n - 1))
        return [Out(s, "ret", some(add_index(Ptr(args[0].c, args[0].p), n - 1 if last else ZERO))) for s in good] + \
            [Out(s, "ret", NONE) for s in bad]
    return f


for _m in ("", "_mut"):
    TABLE["core::slice::<impl [T]>::last" + _m] = end_elem(True)
    TABLE["core::slice::<impl [T]>::first" + _m] = end_elem(False)


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
def _(eng, st, args, c, t, depth):
    return ret(st, Ptr(args[0].c, args[0].p))


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def _(eng, st, args, c, t, depth):
    return ret(st, SliceIt(Ptr(args[0].c, args[0].p), ZERO, slice_len(args[0])))


def iter_next(back):
    def f(eng, st, args, c, t, depth):
        out = []
        for s, it in eng.load(st, args[0]):
            if not isinstance(it, SliceIt):
                raise Unsupported("iterator %r" % (it,))
            good, bad = s.branch(ge(it.end - it.i - 1))
            for g in good:
                if back:
                    n, at = SliceIt(it.base, it.i, it.end - 1, it.mut), it.end - 1
                else:
                    n, at = SliceIt(it.base, it.i + 1, it.end, it.mut), it.i
                for g2 in eng.store(g, args[0], n):
                    out.append(Out(g2, "ret", some(add_index(it.base, at))))
            out.extend(Out(b, "ret", NONE) for b in bad)
        return out
    return f


for _k in ("Iter", "IterMut"):
    TABLE["<std::slice::%s<'a, T> as std::iter::Iterator>::next" % _k] = iter_next(False)
    TABLE["<std::slice::%s<'a, T> as std::iter::DoubleEndedIterator>::next_back" % _k] = iter_next(True)


@model("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len", "<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len",
       "<std::slice::IterMut<'_, T> as std::iter::ExactSizeIterator>::len")
def _(eng, st, args, c, t, depth):
    return [Out(s, "ret", it.end - it.i) for s, it in eng.load(st, args[0])]


def extreme(least):
    def f(eng, st, args, c, t, depth):
        a, b = args
        if not isinstance(a, L) or not isinstance(b, L):
            raise Unsupported("minimum")
        lo, hi = st.branch(ge(b - a))
        return [Out(s, "ret", a if least else b) for s in lo] + [Out(s, "ret", b if least else a) for s in hi]
    return f


TABLE["std::intrinsics::integer_min"] = extreme(True)
TABLE["std::intrinsics::integer_max"] = extreme(False)


def iter_hint(eng, st, args, c, t, depth):
    return [Out(s, "ret", Agg(0, (it.end - it.i, some(it.end - it.i)))) for s, it in eng.load(st, args[0])]


def iter_at(eng, st, args, c, t, depth):
    out = []
    for s, it in eng.load(st, args[0]):
        good, bad = s.branch(ge(it.end - it.i - 1 - args[1]))
        for b in bad:
            eng.try_issue(b, "oob", "an element past an iterator's end is taken without a bounds check")
        out += [Out(g, "ret", add_index(it.base, it.i + args[1])) for g in good]
    return out


def iter_nth(eng, st, args, c, t, depth):
    out = []
    for s, it in eng.load(st, args[0]):
        good, bad = s.branch(ge(it.end - it.i - 1 - args[1]))
        for x, i, v in [(g, it.i + args[1] + 1, some(add_index(it.base, it.i + args[1]))) for g in good] + [(b, it.end, NONE) for b in bad]:
            for x2 in eng.store(x, args[0], SliceIt(it.base, i, it.end, it.mut)):
                out.append(Out(x2, "ret", v))
    return out


for _k in ("Iter", "IterMut"):
    TABLE["<std::slice::%s<'a, T> as std::iter::Iterator>::size_hint" % _k] = iter_hint
    TABLE["<std::slice::%s<'a, T> as std::iter::Iterator>::__iterator_get_unchecked" % _k] = iter_at
    TABLE["<std::slice::%s<'a, T> as std::iter::Iterator>::nth" % _k] = iter_nth


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts", "std::ptr::slice_from_raw_parts_mut")
def _(eng, st, args, c, t, depth):
    p, n = args
    if p.c is None:
        if st.prove(-n):
            return ret(st, Ptr(None, (), ZERO))
        eng.issue(st, "null", "a slice is made from a null pointer")
    out = []
    for s, b, arr, i in arr_at(eng, st, p):
        good, bad = s.branch(ge(arr.cap - i - n))
        for x in bad:
            eng.try_issue(x, "oob", "a slice longer than its array is made")
        for g in good:
            out.append(Out(g, "ret", Ptr(b.c, b.p + (("i", i),), n)))
    return out


def deref_key(eng, st, v):
    """Follow references down to the key: [(state, key)]"""
    if isinstance(v, Ptr):
        out = []
        for s, x in eng.load(st, v):
            out.extend(deref_key(eng, s, x))
        return out
    if v is UNINIT or v is MOVED:
        eng.issue(st, "uninit", "a key that is not live is compared")
    return [(st, v)]


@model("core::slice::<impl [T]>::binary_search")
def binary_search(eng, st, args, c, t, depth):
    sl, kp = args
    out = list(user_panic(eng, st, "cmp"))
    for s, key in deref_key(eng, st, kp):
        n = slice_len(sl)
        for s2, b, arr, i in arr_at(eng, s, Ptr(sl.c, sl.p)):
            for s3, left, mid, right in cut_range(eng, s2, arr, i, n):
                check_live(eng, s3, mid, "a key that is not live is compared")
                if s3.loose:
                    out.extend(anywhere(s3, n))
                    continue
                out.extend(bsearch(eng, s3, mid, key))
    return out


def anywhere(st, n):
    """A search among keys in no known order: any answer within the slice."""
    out = []
    for k in (0, 1):
        s, i = st.copy(), fresh("at")
        s.ge(i)
        s.ge(n - i - 1 + k)
        out.append(Out(s, "ret", Agg(k, (i,))))
    return [x for x in out if x.st.alive()]


def bsearch(eng, st, segs, key):
    out = []
    o = ZERO
    cur = [st]
    arr = Arr((), ZERO, "K", None)
    for seg in segs:
        if seg[1] == "U":
            continue
        n = seg[0]
        nxt = []
        for s in cur:
            good, bad = s.branch(ge(n - 1))
            nxt.extend(bad)
            for g in good:
                last = eng.seg_elem(g, arr, seg, n - 1)
                c = g.lt(last, key)
                if c is None:
                    raise Unsupported("order of %r and %r" % (last, key))
                below, rest = g.branch(c)
                nxt.extend(below)
                for r in rest:
                    out.extend(bseg(eng, r, seg, o, key))
        cur = nxt
        o = o + n
    out.extend(Out(s, "ret", Agg(1, (o,))) for s in cur)
    return [x for x in out if not x.st.dead()]


def bseg(eng, st, seg, o, key):
    """Search in a segment whose last element is not below the key."""
    n, k, x, off = seg
    if k == "1":
        if x == key:
            return [Out(st, "ret", Agg(0, (o,)))]
        c = st.lt(key, x)
        if c is None:
            raise Unsupported("order of %r and %r" % (key, x))
        a, b = st.branch(c)
        return [Out(s, "ret", Agg(1, (o,))) for s in a] + [Out(s, "ret", Agg(0, (o,))) for s in b]
    if k == "G" and key.k == "N":
        p, q = st.keys[key.a]
        base = x
    elif k == "S" and key.k == "N":
        p, q = st.rank(x, key.a)
        base = off
    elif k == "G" and key.k == "G":
        p, q = key.a, key.a + 1
        base = x
    else:
        raise Unsupported("search for %r" % (key,))
    out = []
    # position of the first element not below the key
    ins, before = st.branch(ge(p - base))
    for s in before:
        # the first element is not below the key
        eq_, ne_ = s.branch(ge(q - base - 1))
        out.extend(Out(z, "ret", Agg(0, (o,))) for z in eq_)
        out.extend(Out(z, "ret", Agg(1, (o,))) for z in ne_)
    for s in ins:
        eq_, ne_ = s.branch(ge(q - p - 1))
        out.extend(Out(z, "ret", Agg(0, (o + p - base,))) for z in eq_)
        out.extend(Out(z, "ret", Agg(1, (o + p - base,))) for z in ne_)
    return out


# user code: keys and values
def compare(which):
    def f(eng, st, args, c, t, depth):
        out = []
        for s, a in deref_key(eng, st, args[0]):
            for s2, b in deref_key(eng, s, args[1]):
                if isinstance(a, (L, Cond, Agg, Opq)) and not isinstance(a, Key):
                    if c.get("key") in eng.prog.bodies:
                        return eng.call_body(st, c["key"], args, c, depth)
                    if isinstance(a, L) and isinstance(b, L):
                        out.append(Out(s2, "ret", {"lt": ge(b - a - 1), "le": ge(b - a), "gt": ge(a - b - 1), "ge": ge(a - b), "eq": eq(a - b),
                                                   "ne": eq(a - b).neg()}[which]))
                        continue
                    raise Unsupported("comparison of %r" % (a,))
                if not isinstance(a, Key) or not isinstance(b, Key):
                    if isinstance(a, Val) and isinstance(b, Val) and getattr(eng, "val_cmp", None):
                        out.extend(eng.val_cmp(s2, which, a, b))
                        continue
                    raise Unsupported("comparison of %r and %r" % (a, b))
                out.extend(user_panic(eng, s2, "cmp"))
                if s2.loose:
                    out += [Out(s2.copy(), "ret", TRUE), Out(s2, "ret", FALSE)]
                    continue
                lt, gt = s2.lt(a, b), s2.lt(b, a)
                if which in ("lt", "ge"):
                    r = lt
                elif which in ("gt", "le"):
                    r = gt
                else:
                    r = None if lt is None or gt is None else cor(lt, gt)
                if r is None:
                    raise Unsupported("order of %r and %r" % (a, b))
                out.append(Out(s2, "ret", r.neg() if which in ("ge", "le", "eq") else r))
        return out
    return f


for _w in ("lt", "le", "gt", "ge"):
    TABLE["std::cmp::PartialOrd::" + _w] = compare(_w)
for _w in ("eq", "ne"):
    TABLE["std::cmp::PartialEq::" + _w] = compare(_w)


def cmp_model(wrap):
    def f(eng, st, args, c, t, depth):
        out = []
        for s, a in deref_key(eng, st, args[0]):
            for s2, b in deref_key(eng, s, args[1]):
                if isinstance(a, L) and isinstance(b, L):
                    for i, cc in ((0, ge(b - a - 1)), (1, eq(a - b)), (2, ge(a - b - 1))):
                        out.extend(Out(x, "ret", some(Agg(i, ())) if wrap else Agg(i, ())) for x in s2.copy().where(cc))
                    continue
                if isinstance(a, Cond) and isinstance(b, Cond):
                    for i, cc in ((0, cand(a.neg(), b)), (1, cor(cand(a, b), cand(a.neg(), b.neg()))), (2, cand(a, b.neg()))):
                        out.extend(Out(x, "ret", some(Agg(i, ())) if wrap else Agg(i, ())) for x in s2.copy().where(cc))
                    continue
                if not isinstance(a, Key) or not isinstance(b, Key):
                    if isinstance(a, Val) and isinstance(b, Val) and getattr(eng, "val_cmp", None):
                        out.extend(eng.val_cmp(s2, "partial_cmp" if wrap else "cmp", a, b))
                        continue
                    if isinstance(a, Agg) and isinstance(b, Agg) and c.get("key") in eng.prog.bodies:
                        out.extend(eng.call_body(s2, c["key"], args, c, depth))
                        continue
                    raise Unsupported("comparison of %r and %r" % (a, b))
                out.extend(user_panic(eng, s2, "cmp"))
                if s2.loose:
                    out += [Out(s2.copy(), "ret", some(Agg(i, ())) if wrap else Agg(i, ())) for i in (0, 1, 2)]
                    continue
                lt, gt = s2.lt(a, b), s2.lt(b, a)
                if lt is None or gt is None:
                    raise Unsupported("order of %r and %r" % (a, b))
                for i, cc in ((0, lt), (2, gt)):
                    out.extend(Out(x, "ret", some(Agg(i, ())) if wrap else Agg(i, ())) for x in s2.copy().where(cc))
                out.extend(Out(x, "ret", some(Agg(1, ())) if wrap else Agg(1, ())) for x in s2.where(cand(lt.neg(), gt.neg())))
        return out
    return f


TABLE["std::cmp::Ord::cmp"] = cmp_model(False)
TABLE["std::cmp::PartialOrd::partial_cmp"] = cmp_model(True)


def plain(eng, t):
    """Numbers and pointers, and tuples of them: cloning is copying."""
    y = eng.ty(t)
    return y["k"] in ("int", "bool", "ptr") or (y["k"] == "tuple" and all(plain(eng, x) for x in y["ts"]))


@model("std::clone::Clone::clone")
def clone(eng, st, args, c, t, depth):
    y = eng.ty(c["args"][0])
    if plain(eng, c["args"][0]):
        return [Out(s, "ret", v) for s, v in eng.load(st, args[0])]
    if y["k"] != "param" and y["k"] != "alias":
        raise Unsupported("clone of " + y["s"])
    out = []
    for s, v in eng.load(st, args[0]):
        if v is UNINIT or v is MOVED:
            eng.try_issue(s, "uninit", "a %s that is not live is cloned" % y["s"])
            continue
        if not isinstance(v, (Key, Val)):
            if isinstance(v, Opq):
                out.append(Out(s, "ret", v))
                continue
            raise Unsupported("clone of %r" % (v,))
        out.extend(user_panic(eng, s, "clone"))
        out.append(Out(s, "ret", v))
    return out


# raw pointers
@model("std::ptr::const_ptr::<impl *const T>::cast", "std::ptr::mut_ptr::<impl *mut T>::cast",
       "std::ptr::mut_ptr::<impl *mut T>::cast_const", "std::ptr::const_ptr::<impl *const T>::cast_mut",
       "std::ptr::NonNull::<T>::as_ptr", "std::ptr::NonNull::<T>::cast", "std::ptr::NonNull::<T>::new_unchecked",
       "std::ptr::NonNull::<T>::as_mut", "std::ptr::NonNull::<T>::as_ref")
def ptr_same(eng, st, args, c, t, depth):
    v = args[0]
    p = c.get("rpath") or c["path"]
    if p.endswith("NonNull::<T>::as_mut") or p.endswith("NonNull::<T>::as_ref"):
        return [Out(s, "ret", x) for s, x in eng.load(st, v)]
    if p.endswith("::cast") and isinstance(v, Ptr) and len(c["args"]) > 1:
        return ret(st, ptr_cast(eng, st, v, c["args"][0], c["args"][1]))
    return ret(st, v)


def wrapped(eng, t, to):
    """The fields that lead from a local struct to the one thing it holds, when that is a `to`."""
    want = eng.ty(to)
    if want["k"] != "adt" or not want["path"].startswith("crate::"):
        return None
    path, seen = (), 0
    while seen < 6:
        y = eng.ty(t)
        seen += 1
        if y["k"] != "adt" or y["kind"] != "struct":
            return None
        if y["path"] == want["path"]:
            return path
        if eng.transparent(t):
            t = y["args"][0]
            continue
        fs = [(i, f[1]) for i, f in enumerate(y["variants"][0]["fields"]) if not (eng.ty(f[1])["k"] == "adt" and eng.ty(f[1])["phantom"])]
        if len(fs) != 1 or not y["path"].startswith("crate::"):
            return None
        path += (fs[0][0],)
        t = fs[0][1]
    return None


def ptr_cast(eng, st, v, frm, to):
    """A pointer to a node's array read as a pointer to its elements, or to a wrapper as one to what it wraps."""
    if v.c is not None:
        for a, b, down in ((frm, to, True), (to, frm, False)):
            w = wrapped(eng, a, b)
            if w and down:
                return Ptr(v.c, v.p + w)
            if w and v.p[-len(w):] == w:
                return Ptr(v.c, v.p[:-len(w)])
    if array_alias(eng, frm) is not None and array_alias(eng, to) is None and v.c is not None:
        return Ptr(v.c, v.p + (("i", ZERO),))
    return Ptr(v.c, v.p, v.m if eng.ty(to)["k"] in ("slice", "str") else None)


@model("std::ptr::mut_ptr::<impl *mut T>::add", "std::ptr::const_ptr::<impl *const T>::add",
       "std::ptr::mut_ptr::<impl *mut T>::offset", "std::ptr::const_ptr::<impl *const T>::offset",
       "std::ptr::mut_ptr::<impl *mut T>::wrapping_add", "std::ptr::const_ptr::<impl *const T>::wrapping_add")
def ptr_add(eng, st, args, c, t, depth):
    p, n = args
    if p.c is None:
        if st.prove(n) and st.prove(-n):
            return ret(st, p)
        eng.issue(st, "null", "an offset from a null pointer is taken")
    return ret(st, add_index(Ptr(p.c, p.p), n))


@model("std::ptr::mut_ptr::<impl *mut T>::sub", "std::ptr::const_ptr::<impl *const T>::sub")
def _(eng, st, args, c, t, depth):
    return ptr_add(eng, st, [args[0], -args[1]], c, t, depth)


@model("std::ptr::null", "std::ptr::null_mut")
def _(eng, st, args, c, t, depth):
    return ret(st, NULL)


@model("std::ptr::const_ptr::<impl *const T>::is_null", "std::ptr::mut_ptr::<impl *mut T>::is_null")
def _(eng, st, args, c, t, depth):
    if not isinstance(args[0], Ptr):
        if args[0] is UNINIT or args[0] is MOVED:
            eng.issue(st, "uninit", "an uninitialised pointer is examined")
        raise Unsupported("is_null of %r" % (args[0],))
    return ret(st, TRUE if args[0].c is None else FALSE)


@model("std::ptr::const_ptr::<impl *const T>::as_ref", "std::ptr::mut_ptr::<impl *mut T>::as_ref", "std::ptr::mut_ptr::<impl *mut T>::as_mut")
def _(eng, st, args, c, t, depth):
    p = args[0]
    if p is UNINIT or p is MOVED:
        eng.issue(st, "uninit", "an uninitialised pointer is examined")
    if p.c is None:
        return ret(st, NONE)
    n = st.nodes.get(p.c)
    if p.c not in st.cells:
        eng.issue(st, "dangling", "a pointer to memory that is no longer live is followed")
    if n is not None and n.freed:
        eng.issue(st, "freed", "a pointer to a node that was freed is followed")
    return ret(st, some(p))


@model("std::ptr::mut_ptr::<impl *mut T>::read", "std::ptr::const_ptr::<impl *const T>::read", "std::ptr::read")
def ptr_read(eng, st, args, c, t, depth):
    ty = c["args"][0]
    p = args[0]
    out = []
    owns = eng.needs_drop(ty) or eng.is_kind(ty) or is_node_ty(eng, ty)
    for s, v in load_elem(eng, st, p, ty):
        if owns:
            if v is UNINIT or v is MOVED:
                eng.try_issue(s, "uninit", "an element that is not live is moved out: entry duplicated or uninitialised")
                continue
            n = s.nodes.get(p.c)
            if n is not None and not n.excl:
                eng.try_issue(s, "excl", "an element is moved out of a node that may be shared with another tree")
                continue
            s = mark_moved(eng, s, elem_ptr(s, p))
        out.append(Out(s, "ret", v))
    return out


def is_node_ty(eng, t):
    y = eng.ty(t)
    return y["k"] == "adt" and y["path"] == "crate::branch::node::Node"


def elem_ptr(st, p):
    """A pointer to an array's first element, when it is an array that is pointed to."""
    v = st.cells.get(p.c)
    for x in p.p:
        if isinstance(v, Agg) and isinstance(x, int) and x < len(v.f):
            v = v.f[x]
        else:
            return p
    if isinstance(v, Arr):
        return Ptr(p.c, p.p + (("i", ZERO),))
    return p


def load_elem(eng, st, p, ty):
    if p.c is None or array_alias(eng, ty) is not None:
        return eng.load(st, p)
    return eng.load(st, elem_ptr(st, p))


@model("std::ptr::mut_ptr::<impl *mut T>::write", "std::ptr::write")
def ptr_write(eng, st, args, c, t, depth):
    p, v = args
    ty = c["args"][0]
    if p.c is not None and array_alias(eng, ty) is None:
        p = elem_ptr(st, p)
    out = []
    owns = eng.needs_drop(ty) or eng.is_kind(ty) or is_node_ty(eng, ty)
    if owns and p.c is not None and in_node(st, p):
        cur = []
        for s, old in eng.load(st, p):
            if not (old is UNINIT or old is MOVED) and not (eng.params(ty) and all(spared(s, x) for x in eng.params(ty))):
                eng.try_issue(s, "leak", "a live element is overwritten without being dropped: entry leaked")
            cur.append(s)
    else:
        cur = [st]
    for s in cur:
        out.extend(Out(x, "ret", UNIT) for x in eng.store(s, p, v))
    return out


@model("std::ptr::mut_ptr::<impl *mut T>::replace", "std::ptr::replace", "std::mem::replace")
def replace(eng, st, args, c, t, depth):
    p, v = args
    if p.c is not None:
        p = elem_ptr(st, p)
    out = []
    for s, old in eng.load(st, p):
        if (old is UNINIT or old is MOVED) and in_node(s, p):
            eng.try_issue(s, "uninit", "an element that is not live is replaced")
            continue
        out.extend(Out(x, "ret", old) for x in eng.store(s, p, v))
    return out


@model("std::mem::swap", "std::ptr::swap")
def _(eng, st, args, c, t, depth):
    a, b = args
    out = []
    for s, x in eng.load(st, a):
        for s2, y in eng.load(s, b):
            for s3 in eng.store(s2, a, y):
                out.extend(Out(z, "ret", UNIT) for z in eng.store(s3, b, x))
    return out


@model("std::mem::take")
def _(eng, st, args, c, t, depth):
    if c.get("key") in eng.prog.bodies:
        return eng.call_body(st, c["key"], args, c, depth)
    raise Unsupported("mem::take")


def copy_model(order):
    def f(eng, st, args, c, t, depth):
        a, b, n = args
        src, dst = (a, b) if order else (b, a)
        return [Out(s, "ret", UNIT) for s in copy_range(eng, st, src, dst, n)]
    return f


for _n in ("copy_to", "copy_to_nonoverlapping"):
    TABLE["std::ptr::mut_ptr::<impl *mut T>::" + _n] = copy_model(True)
    TABLE["std::ptr::const_ptr::<impl *const T>::" + _n] = copy_model(True)
for _n in ("copy_from", "copy_from_nonoverlapping"):
    TABLE["std::ptr::mut_ptr::<impl *mut T>::" + _n] = copy_model(False)
for _n in ("std::ptr::copy", "std::ptr::copy_nonoverlapping", "std::intrinsics::copy", "std::intrinsics::copy_nonoverlapping"):
    TABLE[_n] = copy_model(True)


@model("std::ptr::drop_in_place", "std::ptr::mut_ptr::<impl *mut T>::drop_in_place")
def drop_in_place(eng, st, args, c, t, depth):
    ty = c["args"][0]
    y = eng.ty(ty)
    p = args[0]
    if y["k"] != "slice":
        return eng.drop_at(st, p, ty, depth)
    if not eng.needs_drop(y["t"]):
        return ret(st)
    out = []
    n = slice_len(p)
    for s, b, arr, i in arr_at(eng, st, Ptr(p.c, p.p)):
        check_write(eng, s, b)
        for s2, left, mid, right in cut_range(eng, s, arr, i, n):
            check_live(eng, s2, mid, "an element that is not live is dropped")
            for s3 in set_arr(eng, s2, b, arr, left + [(n, "U", None, None)] + right):
                out.extend(user_panic(eng, s3, "drop"))
                out.append(Out(s3, "ret", UNIT))
    return out


# wrappers that are their content
@model("std::mem::ManuallyDrop::<T>::new", "std::mem::ManuallyDrop::<T>::into_inner", "std::mem::MaybeUninit::<T>::new",
       "std::mem::MaybeUninit::<T>::assume_init", "std::mem::MaybeUninit::<T>::as_ptr", "std::mem::MaybeUninit::<T>::as_mut_ptr",
       "<std::mem::ManuallyDrop<T> as std::ops::Deref>::deref", "<std::mem::ManuallyDrop<T> as std::ops::DerefMut>::deref_mut",
       "std::cell::UnsafeCell::<T>::get", "std::mem::MaybeUninit::<T>::assume_init_ref", "std::mem::MaybeUninit::<T>::assume_init_mut")
def same(eng, st, args, c, t, depth):
    return ret(st, args[0])


@model("std::mem::ManuallyDrop::<T>::take", "std::mem::MaybeUninit::<T>::assume_init_read")
def _(eng, st, args, c, t, depth):
    return ptr_read(eng, st, args, c, t, depth)


@model("std::mem::ManuallyDrop::<T>::drop", "std::mem::MaybeUninit::<T>::assume_init_drop")
def _(eng, st, args, c, t, depth):
    return eng.drop_at(st, args[0], c["args"][0], depth)


@model("std::mem::MaybeUninit::<T>::uninit")
def _(eng, st, args, c, t, depth):
    a = array_alias(eng, c["args"][0])
    if a is not None:
        cap, e, ety = a
        return ret(st, Arr(((cap, "U", None, None),), cap, e, ety))
    return ret(st, UNINIT)


def live_parts(v):
    if isinstance(v, (Handle, Key, Val)):
        return True
    if isinstance(v, Agg):
        return any(live_parts(x) for x in v.f)
    if isinstance(v, Seq):
        return any(live_parts(x) for x in v.items)
    if isinstance(v, Arr):
        return any(s[1] != "U" for s in v.s)
    return False


@model("std::mem::forget")
def _(eng, st, args, c, t, depth):
    if live_parts(args[0]):
        eng.try_issue(st, "leak", "something that owns entries is forgotten")
    return ret(st)


@model("std::mem::drop")
def _(eng, st, args, c, t, depth):
    cell = st.new_cell(args[0])
    return eng.drop_at(st, Ptr(cell), c["args"][0], depth)


# vectors
def seq_of(eng, st, p):
    out = []
    for s, v in eng.load(st, p):
        if isinstance(v, Seq):
            out.append((s, v))
        else:
            raise Unsupported("vector %r" % (v,))
    return out


@model("arrayvec::ArrayVec::<A>::new")
def _(eng, st, args, c, t, depth):
    y = eng.ty(c["args"][0])
    return ret(st, Seq((), int(y["n"]) if y["k"] == "array" else None))


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def _(eng, st, args, c, t, depth):
    return ret(st, Seq((), None))


@model("arrayvec::ArrayVec::<A>::push", "std::vec::Vec::<T, A>::push")
def _(eng, st, args, c, t, depth):
    out = []
    for s, v in seq_of(eng, st, args[0]):
        if v.cap is not None and len(v.items) >= v.cap:
            out.extend(eng.panic(s, "capacity"))
            continue
        if eng.max_vec is not None and len(v.items) >= eng.max_vec:
            eng.beyond = True
            continue
        if len(v.items) > 24:
            raise Unsupported("vector grows without bound")
        out.extend(Out(x, "ret", UNIT) for x in eng.store(s, args[0], Seq(v.items + (args[1],), v.cap)))
    return out


def callee(eng, key, path, seen=None):
    """The call of a trait's method that a function of a library makes, however deep."""
    seen = set() if seen is None else seen
    if key in seen or key not in eng.prog.bodies or len(seen) > 40:
        return None
    seen.add(key)
    calls = [b["t"]["f"]["c"] for b in eng.prog.bodies[key]["blocks"] if b["t"]["k"] == "call" and "c" in b["t"]["f"]]
    for f in calls:
        if f["path"] == path:
            return f
    for f in calls:
        r = callee(eng, f.get("key"), path, seen)
        if r is not None:
            return r
    return None


@model("<arrayvec::ArrayVec<A> as std::iter::Extend<<A as arrayvec::Array>::Item>>::extend")
def extend(eng, st, args, c, t, depth):
    """Everything an iterator yields is pushed."""
    start = callee(eng, c.get("key"), "std::iter::IntoIterator::into_iter")
    step = callee(eng, c.get("key"), "std::iter::Iterator::next")
    if step is None or start is None:
        raise Unsupported("extending a vector")
    work, out = [], []
    for o in eng.apply(st, FnV(start), [args[1]], None, None):
        if o.k == "ret":
            work.append((o.st, o.st.new_cell(o.v)))
        else:
            out.append(o)
    turns = 0
    while work:
        s, cell = work.pop()
        turns += 1
        if turns > 400:
            raise Unsupported("a vector is extended by too many elements")
        for o in eng.apply(s, FnV(step), [Ptr(cell)], None, None):
            if o.k != "ret" or o.st.dead():
                out.append(o)
            elif o.v == NONE:
                out.append(Out(o.st, "ret", UNIT))
            else:
                for p in TABLE["arrayvec::ArrayVec::<A>::push"](eng, o.st, [args[0], o.v.f[0]], c, t, depth):
                    if p.k == "ret":
                        work.append((p.st, cell))
                    else:
                        out.append(p)
    return out


def saturating_sub(eng, st, args, c, t, depth):
    a, b = args
    if not isinstance(a, L) or not isinstance(b, L):
        raise Unsupported("saturating subtraction")
    lo, hi = st.branch(ge(a - b))
    return [Out(s, "ret", a - b) for s in lo] + [Out(s, "ret", ZERO) for s in hi]


def saturating_add(eng, st, args, c, t, depth):
    if not isinstance(args[0], L) or not isinstance(args[1], L):
        raise Unsupported("saturating addition")
    return ret(st, args[0] + args[1])       # of numbers that are nowhere near the bounds of their type


TABLE["std::intrinsics::saturating_sub"] = saturating_sub
TABLE["std::intrinsics::saturating_add"] = saturating_add


@model("arrayvec::ArrayVec::<A>::try_push")
def _(eng, st, args, c, t, depth):
    out = []
    for s, v in seq_of(eng, st, args[0]):
        if v.cap is not None and len(v.items) >= v.cap:
            out.append(Out(s, "ret", Agg(1, (Agg(0, (args[1],)),))))
            continue
        out.extend(Out(x, "ret", Agg(0, (UNIT,))) for x in eng.store(s, args[0], Seq(v.items + (args[1],), v.cap)))
    return out


@model("arrayvec::ArrayVec::<A>::pop", "std::vec::Vec::<T, A>::pop")
def _(eng, st, args, c, t, depth):
    out = []
    for s, v in seq_of(eng, st, args[0]):
        if not v.items:
            out.append(Out(s, "ret", NONE))
        else:
            out.extend(Out(x, "ret", some(v.items[-1])) for x in eng.store(s, args[0], Seq(v.items[:-1], v.cap)))
    return out


@model("arrayvec::ArrayVec::<A>::len", "std::vec::Vec::<T, A>::len")
def _(eng, st, args, c, t, depth):
    return [Out(s, "ret", L.of(len(v.items))) for s, v in seq_of(eng, st, args[0])]


@model("arrayvec::ArrayVec::<A>::is_empty", "std::vec::Vec::<T, A>::is_empty")
def _(eng, st, args, c, t, depth):
    return [Out(s, "ret", FALSE if v.items else TRUE) for s, v in seq_of(eng, st, args[0])]


@model("arrayvec::ArrayVec::<A>::clear", "arrayvec::ArrayVec::<A>::truncate")
def _(eng, st, args, c, t, depth):
    out = []
    for s, v in seq_of(eng, st, args[0]):
        n = 0 if len(args) == 1 else s.sys.red(args[1]).const()
        if n is None:
            raise Unsupported("truncate")
        out.extend(Out(x, "ret", UNIT) for x in eng.store(s, args[0], Seq(v.items[:n], v.cap)))
    return out


@model("<arrayvec::ArrayVec<A> as std::clone::Clone>::clone")
def _(eng, st, args, c, t, depth):
    return [Out(s, "ret", v) for s, v in seq_of(eng, st, args[0])]


@model("<arrayvec::ArrayVec<A> as std::ops::Deref>::deref", "<arrayvec::ArrayVec<A> as std::ops::DerefMut>::deref_mut",
       "<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
       "std::vec::Vec::<T, A>::as_slice", "arrayvec::ArrayVec::<A>::as_slice")
def _(eng, st, args, c, t, depth):
    return [Out(s, "ret", Ptr(args[0].c, args[0].p + (("i", ZERO),), L.of(len(v.items)))) for s, v in seq_of(eng, st, args[0])]


# what the drivers pass in
@model("std::ops::RangeBounds::start_bound")
def _(eng, st, args, c, t, depth):
    for s, v in eng.load(st, args[0]):
        if isinstance(v, Opq) and v.t == "range":
            return ret(s, v.d[0])
    raise Unsupported("range")


@model("std::ops::RangeBounds::end_bound")
def _(eng, st, args, c, t, depth):
    for s, v in eng.load(st, args[0]):
        if isinstance(v, Opq) and v.t == "range":
            return ret(s, v.d[1])
    raise Unsupported("range")


@model("std::iter::IntoIterator::into_iter")
def _(eng, st, args, c, t, depth):
    if isinstance(args[0], Opq):
        return ret(st, args[0])
    raise Unsupported("into_iter of %r" % (args[0],))


@model("std::iter::Iterator::next")
def _(eng, st, args, c, t, depth):
    h = getattr(eng, "user_next", None)
    if h is None:
        raise Unsupported("a caller's iterator")
    return h(eng, st, args[0], depth)


@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def _(eng, st, args, c, t, depth):
    h = getattr(eng, "user_fn", None)
    if h is not None:
        r = h(eng, st, args, c, depth)
        if r is not None:
            return r
    f = args[0]
    if isinstance(f, Ptr):
        for s2, v in eng.load(st, f):
            f, st = v, s2
    if isinstance(f, FnV) and isinstance(args[1], Agg):
        return eng.apply(st, f, list(args[1].f), None, t)
    if isinstance(f, Opq) and c.get("key") in eng.prog.bodies and c.get("kind") != "unresolved":
        return eng.call_body(st, c["key"], args, c, depth)
    raise Unsupported("a caller's function")


@model("std::hash::Hash::hash")
def _(eng, st, args, c, t, depth):
    raise Unsupported("hash")
