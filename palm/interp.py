"""Abstract interpretation of the dumped MIR over the domain in dom.py.

Each function is analysed in its callers' contexts. Control flow joins only at
loop heads: the states arriving at a head are partitioned by the shape of
memory, and states of one shape are joined (relational join over linear
constraints) until nothing changes.
"""
from .lin import L, Sys, affine_join
from .dom import *
from . import dom


class Out:
    __slots__ = ("st", "k", "v")

    def __init__(self, st, k, v=None):
        self.st, self.k, self.v = st, k, v      # k: ret | panic | unwind


class Confirmed(Exception):
    """What was being looked for has been found."""


class Issue:
    def __init__(self, kind, msg, where, st, joined, trail):
        self.kind, self.msg, self.where, self.st, self.joined, self.trail = kind, msg, where, st, joined, trail

    def __repr__(self):
        return "%s: %s at %s" % (self.kind, self.msg, self.where)


class Frame:
    __slots__ = ("key", "info", "cells", "depth", "args")

    def __init__(self, key, info, cells, depth, args=()):
        self.key, self.info, self.cells, self.depth, self.args = key, info, cells, depth, args


import os
TRACE = os.environ.get("PALM_TRACE")

TRANSPARENT = ("MaybeUninit", "ManuallyDrop", "NonNull", "UnsafeCell", "MaybeDangling", "Unique")


class Engine:
    def __init__(self, prog, models, debug, unwind=False, unroll=0):
        self.fold = None
        self.hunted = None      # findings (kind, site) to stop at
        self.again = None       # asked whether a call that starts a function over need not be followed
        self.max_vec = None
        self.prog = prog
        self.models = models
        self.debug = debug
        self.unwind = unwind
        self.unroll = unroll
        self.issues = []
        self.notes = {}
        self.stack = []
        self.recording = 1
        self.steps = 0
        self.limit = 400000
        self.loops = {}
        self.fns = set()
        self.sites = set()
        self._nd = {}
        self.maxdepth = 60
        self.user_calls = 0
        self.merging = True
        self.shared = False

    # ------------------------------------------------------------ types
    def ty(self, t):
        return self.prog.types[t]

    def tstr(self, t):
        return self.prog.types[t]["s"]

    def transparent(self, t):
        y = self.ty(t)
        return y["k"] == "adt" and not y["path"].startswith("crate::") and y["path"].rsplit("::", 1)[-1] in TRANSPARENT

    def is_key(self, t):
        y = self.ty(t)
        return y["k"] == "param" and y["n"] == "K"

    def is_val(self, t):
        y = self.ty(t)
        return y["k"] == "param" and y["n"] == "V"

    def is_kind(self, t):
        y = self.ty(t)
        return (y["k"] == "alias" and "PointerKind" in y["s"]) or (y["k"] == "param" and y["n"] == "Kind")

    def needs_drop(self, t):
        r = self._nd.get(t)
        if r is None:
            self._nd[t] = False
            r = self._nd[t] = self._needs_drop(t)
        return r

    def _needs_drop(self, t):
        y = self.ty(t)
        k = y["k"]
        if k in ("param", "alias", "dyn"):
            return not self.is_kind(t)
        if k == "tuple":
            return any(self.needs_drop(x) for x in y["ts"])
        if k == "closure":
            return any(self.needs_drop(x) for x in y["ups"])
        if k == "adt":
            if y["manually_drop"] or y["phantom"] or y["path"].endswith("MaybeUninit"):
                return False
            if y["has_drop"] or y["is_box"]:
                return True
            return any(self.needs_drop(f[1]) for v in y["variants"] for f in v["fields"])
        if k in ("slice", "array"):
            return self.needs_drop(y["t"])
        return False

    def params(self, t):
        """The type parameters whose values are all a type's drop glue could have to drop; None if it has more to do."""
        y = self.ty(t)
        k = y["k"]
        if k == "param":
            return {y["n"]}
        parts = None
        if k == "tuple":
            parts = y["ts"]
        elif k in ("slice", "array"):
            parts = [y["t"]]
        elif k == "adt" and not y["has_drop"] and not y["is_box"]:
            parts = [f[1] for v in y["variants"] for f in v["fields"]]
        if parts is None:
            return None
        out = set()
        for p in parts:
            if self.needs_drop(p):
                q = self.params(p)
                if q is None:
                    return None
                out |= q
        return out

    # ------------------------------------------------------------ issues
    def where(self):
        out = []
        for fr, sp in reversed(self.stack):
            out.append("%s (%s)" % (short(fr.key), sp))
        return out

    def site(self):
        """The innermost construct of the crate on the call stack."""
        for fr, sp in reversed(self.stack):
            if fr.info.b["local"]:
                return "%s (%s)" % (short(fr.key), rel(sp))
        return self.where()[0] if self.stack else "?"

    def issue(self, st, kind, msg, stop=True):
        if self.recording > 0:
            real = st.feasible() and st.copy().real()
            if real is None:
                # nothing shows that the numbers of this state exist
                self.note("undecided numbers: " + msg)
            elif real:
                self.issues.append(Issue(kind, msg, self.site(), st, st.taint,
                                         [rel(sp) for fr, sp in self.stack if fr.info.b["local"]]))
                if self.hunted and (kind, self.issues[-1].where) in self.hunted:
                    raise Confirmed()
        if stop:
            raise PathEnd()

    def note(self, what):
        if self.recording > 0:
            self.notes[what] = self.notes.get(what, 0) + 1

    # ------------------------------------------------------------ memory
    def load(self, st, ptr, move=False):
        """Read the value a pointer designates: [(state, value)]"""
        if ptr.c is None:
            self.issue(st, "null", "a null or dangling pointer is read")
        if ptr.c not in st.cells:
            self.issue(st, "dangling", "memory that is no longer live is read")
        n = st.nodes.get(ptr.c)
        if n is not None and n.freed:
            self.issue(st, "freed", "a node that was freed is read")
        return self.get_in(st, st.cells[ptr.c], ptr.p)

    def get_in(self, st, v, path):
        for n, s in enumerate(path):
            if isinstance(s, int):
                if isinstance(v, Agg):
                    if s >= len(v.f):
                        return [(st, UNINIT)]
                    v = v.f[s]
                elif v is UNINIT or v is MOVED:
                    return [(st, v)]
                else:
                    raise Unsupported("field of %r" % (v,))
            else:
                out = []
                for s2, e in self.elem(st, v, s[1]):
                    out.extend(self.get_in(s2, e, path[n + 1:]))
                return out
        if isinstance(v, Arr) or not path:
            pass
        return [(st, v)]

    def elem(self, st, v, i):
        """Element i of an array: [(state, value)]"""
        if isinstance(v, Seq):
            return [(s, v.items[k]) for s, k in self.seq_index(st, v, i)]
        if isinstance(v, Agg):
            c = st.sys.red(i).const()
            if c is None or not 0 <= c < len(v.f):
                raise Unsupported("array element")
            return [(st, v.f[c])]
        if not isinstance(v, Arr):
            if v is UNINIT or v is MOVED:
                self.issue(st, "uninit", "an element of uninitialised storage is accessed")
            c = st.sys.red(i).const()
            if c == 0:
                return [(st, v)]
            raise Unsupported("element of %r" % (v,))
        out = []
        for s, k, off in self.locate(st, v, i):
            out.append((s, self.seg_elem(s, v, v.s[k], off)))
        return out

    def seq_index(self, st, v, i):
        c = st.sys.red(i).const()
        if c is not None:
            if not 0 <= c < len(v.items):
                self.issue(st, "oob", "element %s of a vector of %d is accessed" % (c, len(v.items)))
            return [(st, c)]
        out = []
        for k in range(len(v.items)):
            for s in st.copy().where(eq(i - k)):
                out.append((s, k))
        return out

    def locate(self, st, v, i):
        """The segment holding index i: [(state, segment number, offset in it)]"""
        i = st.sys.red(L.of(i))
        out = []
        good, bad = st.branch(ge(i))
        for s in bad:
            self.try_issue(s, "oob", "an element before the start of a node's array is accessed")
        for st in good:
            o = ZERO
            cur = [st]
            for k, seg in enumerate(v.s):
                nxt = []
                for s in cur:
                    ins, outs = s.branch(ge(o + seg[0] - 1 - i))
                    for a in ins:
                        out.append((a, k, i - o))
                    nxt.extend(outs)
                cur = nxt
                o = o + seg[0]
                if not cur:
                    break
            for s in cur:
                self.try_issue(s, "oob", "an element past the capacity of a node's array is accessed")
        return [x for x in out if not x[0].dead()]

    def try_issue(self, st, kind, msg):
        try:
            self.issue(st, kind, msg)
        except PathEnd:
            pass

    def seg_elem(self, st, arr, seg, off):
        n, k, x, o = seg
        if k == "U":
            return UNINIT
        if k == "1":
            return x
        if k == "G":
            return Key("G", x + off) if arr.e == "K" else Val("G", x + off)
        if k == "S":
            return Key("S", x, st.sys.red(o + off))
        if k == "C":
            return self.models.wrap_node(self, arr.ety, Handle(("C", x, st.sys.red(o + off))))
        raise AssertionError(k)

    def store(self, st, ptr, val, what="written"):
        """Write a value: [state]"""
        if ptr.c is None:
            self.issue(st, "null", "a null or dangling pointer is written through")
        if ptr.c not in st.cells:
            self.issue(st, "dangling", "memory that is no longer live is %s" % what)
        n = st.nodes.get(ptr.c)
        if n is not None:
            if n.freed:
                self.issue(st, "freed", "a node that was freed is %s" % what)
            if not n.excl and val is not MOVED:
                self.issue(st, "excl", "a node that may be shared with another tree is written to without being made exclusive first")
        out = []
        for s, v in self.put_in(st, st.cells[ptr.c], ptr.p, val):
            s.cells[ptr.c] = v
            out.append(s)
        return out

    def put_in(self, st, v, path, val):
        if not path:
            return [(st, val)]
        s = path[0]
        if isinstance(s, int):
            if v is UNINIT or v is MOVED:
                v = Agg(0, ())
            if not isinstance(v, Agg):
                raise Unsupported("field write into %r" % (v,))
            f = list(v.f)
            while len(f) <= s:
                f.append(UNINIT)
            out = []
            for s2, nv in self.put_in(st, f[s], path[1:], val):
                g = list(f)
                g[s] = nv
                out.append((s2, Agg(v.v, tuple(g))))
            return out
        i = s[1]
        if isinstance(v, Seq):
            out = []
            for s2, k in self.seq_index(st, v, i):
                for s3, nv in self.put_in(s2, v.items[k], path[1:], val):
                    it = list(v.items)
                    it[k] = nv
                    out.append((s3, Seq(it, v.cap)))
            return out
        if isinstance(v, Agg):
            c = st.sys.red(i).const()
            if c is None:
                raise Unsupported("array element write")
            return self.put_in(st, v, (c,) + tuple(path[1:]), val)
        if not isinstance(v, Arr):
            if st.sys.red(L.of(i)).const() == 0:
                return self.put_in(st, v, path[1:], val)
            raise Unsupported("element write into %r" % (v,))
        out = []
        for s2, k, off in self.locate(st, v, i):
            seg = v.s[k]
            if len(path) > 1:
                old = self.seg_elem(s2, v, seg, off)
                subs = self.put_in(s2, old, path[1:], val)
            else:
                old = None
                subs = [(s2, val)]
            for s3, nv in subs:
                if old is not None and nv == old:
                    out.append((s3, v))
                    continue
                new = self.elem_seg(nv)
                segs = list(v.s[:k]) + [seg_take(seg, ZERO, off), new, seg_take(seg, off + 1, seg[0] - off - 1)] + list(v.s[k + 1:])
                out.append((s3, Arr(tidy(s3, segs), v.cap, v.e, v.ety)))
        return out

    def elem_seg(self, v):
        if v is UNINIT or v is MOVED:
            return (ONE, "U", None, None)
        if isinstance(v, (Key, Val)) and v.k == "G":
            return (ONE, "G", v.a, None)
        if isinstance(v, Key) and v.k == "S":
            return (ONE, "S", v.a, v.b)
        if isinstance(v, Agg):
            h = self.models.unwrap_handle(v)
            if h is not None and isinstance(h.n, tuple):
                return (ONE, "C", h.n[1], h.n[2])
        return (ONE, "1", v, None)

    # ------------------------------------------------------------ places and operands
    def place(self, st, fr, p):
        """[(state, Ptr)]"""
        cur = [(st, Ptr(fr.cells[p[0]]))]
        for e in p[1:]:
            k = e["p"]
            nxt = []
            for s, ptr in cur:
                if k == "deref":
                    for s2, v in self.load(s, ptr):
                        if isinstance(v, Ptr):
                            nxt.append((s2, v))
                        elif v is UNINIT or v is MOVED:
                            self.try_issue(s2, "uninit", "an uninitialised pointer is followed")
                        else:
                            nxt.append((s2, self.models.deref_value(self, s2, v, ptr)))
                elif k == "field":
                    if self.transparent(e["of"]):
                        nxt.append((s, ptr))
                    else:
                        nxt.append((s, Ptr(ptr.c, ptr.p + (e["i"],))))
                elif k == "downcast":
                    nxt.append((s, ptr))
                elif k == "index":
                    for s2, i in self.load(s, Ptr(fr.cells[e["l"]])):
                        nxt.append((s2, add_index(ptr, i)))
                elif k == "cindex":
                    nxt.extend((s, q) for q in [self.cindex(s, ptr, e)])
                else:
                    raise Unsupported("place projection " + k)
            cur = nxt
        return cur

    def cindex(self, st, ptr, e):
        i = e.get("off", e.get("i"))
        if e.get("from_end"):
            if ptr.m is None:
                raise Unsupported("index from the end")
            return add_index(ptr, ptr.m - i)
        return add_index(ptr, L.of(i))

    def operand(self, st, fr, o):
        k = o["o"]
        if k in ("copy", "move"):
            p = o["p"]
            if len(p) == 1:
                return [(st, st.cells[fr.cells[p[0]]])]
            out = []
            for s, ptr in self.place(st, fr, p):
                out.extend(self.load(s, ptr))
            return out
        if k == "const":
            return [(st, self.const(st, fr, o["c"]))]
        if k == "rtcheck":
            return [(st, FALSE)]
        raise Unsupported("operand " + k)

    def const(self, st, fr, c):
        k = c["c"]
        if k == "int":
            t = self.ty(c["t"])
            v = int(c["v"])
            if t["k"] == "bool":
                return TRUE if v else FALSE
            if t["k"] == "int":
                return L.of(v)
            if t["k"] in ("ptr", "ref"):
                return NULL if v == 0 else Ptr(None, (("addr", v),))
            if t["k"] == "adt":
                return self.const_adt(t, v)
            return L.of(v)
        if k == "fn":
            return FnV(c)
        if k == "uneval":
            return self.models.unevaluated(self, c)
        if k == "val":
            t = self.ty(c["t"]) if "t" in c else None
            if c.get("s") == "zst":
                if t is not None and t["k"] == "adt" and t["kind"] == "enum":
                    return Agg(0, ())
                if t is not None and t["k"] == "fndef":
                    return FnV({"c": "fn", "path": t["path"], "args": t["args"], "kind": t.get("kind", "item"), "key": t.get("key")})
                if t is not None and t["k"] == "closure":
                    return Agg(0, ())
                return UNIT
            if t is not None and t["k"] == "adt" and t["path"].endswith("::Option") and "transmute(0x" in str(c.get("s")):
                if int(str(c["s"]).split("transmute(")[1].split(")")[0], 16) == 0:
                    return Agg(0, ())
            return Opq("const", c.get("s"))
        if k == "agg":
            y = self.ty(c["t"])
            if y["k"] == "tuple" or y["k"] == "adt" and y["path"].rsplit("::", 1)[-1] in ("Option", "Result", "ControlFlow"):
                return Agg(c["v"], tuple(self.const(st, fr, x) for x in c["fs"]))
            return Opq("const", c.get("s"))
        if k == "promoted":
            key = c.get("regkey")
            if key is None:
                key = c["regkey"] = "%s promoted %d" % (fr.key, len(self.prog.bodies))
                b = dict(c["body"])
                b.setdefault("local", fr.info.b["local"])
                b.setdefault("args", 0)
                self.prog.bodies[key] = b
            outs = self.run_fn(st, key, [], fr.depth + 1, keep=True)
            for o in outs:
                if o.k == "ret":
                    return o.v
            raise Unsupported("promoted constant")
        raise Unsupported("constant " + k)

    def const_adt(self, t, v):
        if t["kind"] == "enum":
            for i, va in enumerate(t["variants"]):
                if va["discr"] is not None and int(va["discr"]) == v and not va["fields"]:
                    return Agg(i, ())
        return Opq("const", v)

    def assign(self, st, fr, p, v):
        if len(p) == 1:
            st.cells[fr.cells[p[0]]] = v
            return [st]
        out = []
        for s, ptr in self.place(st, fr, p):
            out.extend(self.store(s, ptr, v))
        return out

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k in ("ref", "rawptr"):
            return self.place(st, fr, r["p"])
        if k == "bin":
            out = []
            for s, a in self.operand(st, fr, r["a"]):
                for s2, b in self.operand(s, fr, r["b"]):
                    out.extend(self.binop(s2, r["op"], a, b, r))
            return out
        if k == "agg":
            cur = [(st, ())]
            for o in r["os"]:
                nxt = []
                for s, vs in cur:
                    for s2, v in self.operand(s, fr, o):
                        nxt.append((s2, vs + (v,)))
                cur = nxt
            t = r["t"]
            if r["k"] == "array":
                return [(s, Seq(vs)) for s, vs in cur]
            if self.ty(t)["k"] == "adt" and self.transparent(t):
                return [(s, self.models.transparent_agg(self, t, vs)) for s, vs in cur]
            if r["k"] in ("rawptr", "raw_ptr"):
                return [(s, Ptr(vs[0].c, vs[0].p, vs[1] if isinstance(vs[1], L) else None)) for s, vs in cur]
            return [(s, Agg(r["v"] if isinstance(r["v"], int) else 0, vs)) for s, vs in cur]
        if k == "cast":
            out = []
            for s, v in self.operand(st, fr, r["o"]):
                out.extend(self.cast(s, v, r))
            return out
        if k == "discr":
            out = []
            for s, ptr in self.place(st, fr, r["p"]):
                for s2, v in self.load(s, ptr):
                    out.append((s2, self.discr(s2, v, r["of"])))
            return out
        if k == "un":
            out = []
            for s, v in self.operand(st, fr, r["a"]):
                op = r["op"]
                if op == "Not":
                    if isinstance(v, Cond):
                        out.append((s, v.neg()))
                    else:
                        raise Unsupported("bitwise not")
                elif op == "Neg":
                    out.append((s, -v))
                elif op == "PtrMetadata":
                    if isinstance(v, Ptr) and v.m is not None:
                        out.append((s, v.m))
                    else:
                        out.append((s, UNIT))
                else:
                    raise Unsupported("unary " + op)
            return out
        if k == "repeat":
            raise Unsupported("array repeat")
        raise Unsupported("rvalue " + k)

    def discr(self, st, v, of):
        if isinstance(v, Agg):
            t = self.ty(of)
            if t["k"] == "adt" and v.v is not None and v.v < len(t["variants"]):
                d = t["variants"][v.v]["discr"]
                return L.of(int(d) if d is not None else v.v)
            return L.of(v.v)
        if v is UNINIT or v is MOVED:
            t = self.ty(of)
            if t["k"] == "adt":
                can = [i for i, va in enumerate(t["variants"]) if not any(self.empty_type(f[1]) for f in va["fields"])]
                if len(can) == 1:
                    d = t["variants"][can[0]]["discr"]
                    return L.of(int(d) if d is not None else can[0])
            self.issue(st, "uninit", "the variant of an uninitialised value is read")
        raise Unsupported("discriminant of %r" % (v,))

    def empty_type(self, t):
        y = self.ty(t)
        return y["k"] == "never" or (y["k"] == "adt" and y["kind"] == "enum" and not y["variants"])

    def as_int(self, v):
        if isinstance(v, L):
            return v
        if v is TRUE:
            return ONE
        if v is FALSE:
            return ZERO
        return None

    def binop(self, st, op, a, b, r):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if not (isinstance(a, Cond) and isinstance(b, Cond)):
                raise Unsupported("mixed boolean operation")
            if op == "BitAnd":
                return [(st, cand(a, b))]
            if op == "BitOr":
                return [(st, cor(a, b))]
            if op in ("Eq", "Ne", "BitXor"):
                e = cor(cand(a, b), cand(a.neg(), b.neg()))
                return [(st, e if op == "Eq" else e.neg())]
            raise Unsupported("boolean " + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "Offset":
                return [(st, add_index(a, b))]
            if op in ("Eq", "Ne"):
                c = self.ptr_eq(st, a, b)
                return [(st, c if op == "Eq" else c.neg())]
            raise Unsupported("pointer " + op)
        if a is UNINIT or b is UNINIT or a is MOVED or b is MOVED:
            self.issue(st, "uninit", "an uninitialised value is used in arithmetic")
        if not isinstance(a, L) or not isinstance(b, L):
            if op in ("Eq", "Ne") and isinstance(a, Agg) and isinstance(b, Agg) and not a.f and not b.f:
                c = TRUE if a.v == b.v else FALSE
                return [(st, c if op == "Eq" else c.neg())]
            raise Unsupported("%s of %r and %r" % (op, a, b))
        if op == "Eq":
            return [(st, eq(a - b))]
        if op == "Ne":
            return [(st, eq(a - b).neg())]
        if op == "Lt":
            return [(st, ge(b - a - 1))]
        if op == "Le":
            return [(st, ge(b - a))]
        if op == "Gt":
            return [(st, ge(a - b - 1))]
        if op == "Ge":
            return [(st, ge(a - b))]
        if op == "Cmp":
            return [(s, Agg(v, ())) for v, c in ((0, ge(b - a - 1)), (1, eq(a - b)), (2, ge(a - b - 1))) for s in st.copy().where(c)]
        if op in ("Add", "AddUnchecked"):
            return [(st, a + b)]
        if op == "AddWithOverflow":
            return [(st, Agg(0, (a + b, FALSE)))]
        if op in ("Sub", "SubUnchecked"):
            if self.signed(r):
                return [(st, a - b)]
            return self.usub(st, a, b)
        if op == "SubWithOverflow":
            if self.signed(r):
                return [(st, Agg(0, (a - b, FALSE)))]
            good, bad = st.branch(ge(a - b))
            return [(s, Agg(0, (a - b, FALSE))) for s in good] + [(s, Agg(0, (a - b + WRAP, TRUE))) for s in bad]
        if op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            ca, cb = st.sys.red(a).const(), st.sys.red(b).const()
            if ca is not None:
                v = b.scale(ca)
            elif cb is not None:
                v = a.scale(cb)
            else:
                raise Unsupported("product of two variables")
            return [(st, v if op != "MulWithOverflow" else Agg(0, (v, FALSE)))]
        if op in ("Div", "Shr"):
            d = st.sys.red(b).const()
            if d is None:
                raise Unsupported("division by a variable")
            if op == "Shr":
                d = 1 << d
            if d == 1:
                return [(st, a)]
            ca = st.sys.red(a).const()
            if ca is not None:
                return [(st, L.of(ca // d))]
            m = fresh("d")
            e = a - m.scale(d)
            st.ge(e)
            st.ge(-e + (d - 1))
            return [(st, m)]
        if op == "Rem":
            d = st.sys.red(b).const()
            if not d:
                raise Unsupported("remainder by a variable")
            m, x = fresh("d"), fresh("r")
            st.eq(a - m.scale(d) - x)
            st.ge(x)
            st.ge(-x + (d - 1))
            return [(st, x)]
        if op == "Shl":
            d = st.sys.red(b).const()
            if d is None:
                raise Unsupported("shift by a variable")
            return [(st, a.scale(1 << d))]
        ca, cb = st.sys.red(a).const(), st.sys.red(b).const()
        if op == "BitAnd" and cb is not None and cb >= 0 and (cb & (cb + 1)) == 0:
            return self.binop(st, "Rem", a, L.of(cb + 1), r)
        if ca is not None and cb is not None:
            if op == "BitAnd":
                return [(st, L.of(ca & cb))]
            if op == "BitOr":
                return [(st, L.of(ca | cb))]
            if op == "BitXor":
                return [(st, L.of(ca ^ cb))]
        raise Unsupported("operation " + op)

    def signed(self, r):
        for f in ("a", "b"):
            o = r[f]
            if o["o"] == "const":
                t = self.ty(o["c"]["t"]) if "t" in o["c"] else None
            elif len(o["p"]) == 1:
                t = self.ty(self.stack[-1][0].info.locals[o["p"][0]])
            else:
                e = o["p"][-1]
                t = self.ty(e["t"]) if e["p"] == "field" else None
            if t is not None and t["k"] == "int":
                return t["s"].startswith("i")
        return False

    def usub(self, st, a, b):
        good, bad = st.branch(ge(a - b))
        return [(s, a - b) for s in good] + [(s, a - b + WRAP) for s in bad]

    def ptr_eq(self, st, a, b):
        if a.c is None or b.c is None:
            return TRUE if a.c is None and b.c is None else FALSE
        if a.c != b.c:
            return FALSE
        if a.p == b.p:
            return TRUE
        if len(a.p) == len(b.p) and a.p[:-1] == b.p[:-1] and isinstance(a.p[-1], tuple) and isinstance(b.p[-1], tuple):
            return eq(a.p[-1][1] - b.p[-1][1])
        return FALSE

    def cast(self, st, v, r):
        k = r["k"]
        to, frm = self.ty(r["t"]), self.ty(r["from"]) if "from" in r else None
        if k == "IntToInt":
            if isinstance(v, Cond):
                if v.k in ("T", "F"):
                    return [(st, ONE if v.k == "T" else ZERO)]
                g, b = st.branch(v)
                return [(s, ONE) for s in g] + [(s, ZERO) for s in b]
            if not isinstance(v, L):
                raise Unsupported("integer cast of %r" % (v,))
            fs, ts = frm["s"], to["s"]
            if ts in ("u8", "u16", "u32", "i8", "i16", "i32") and fs in ("usize", "isize", "u64", "i64", "u32", "i32"):
                bits = int(ts[1:])
                lo, hi = (0, 2 ** bits - 1) if ts[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
                fits, lost = st.branch(cand(ge(v - lo), ge(L.of(hi) - v)))
                out = [(s, v) for s in fits]
                for s in lost:
                    for side in (ge(v - hi - 1), ge(L.of(lo - 1) - v)):
                        for x in s.copy().where(side):
                            if x.alive():
                                q = fresh("q")          # what is left is the remainder
                                w = v - q.scale(2 ** bits)
                                x.ge(w - lo)
                                x.ge(L.of(hi) - w)
                                out.append((x, w))
                return out
            if fs.startswith("i") and ts.startswith("u"):
                good, bad = st.branch(ge(v))
                return [(s, v) for s in good] + [(s, v + WRAP) for s in bad]
            if fs.startswith("u") and ts.startswith("i"):
                if v.c >= WRAP // 2:
                    return [(st, v - WRAP)]
            return [(st, v)]
        if k == "Transmute":
            return [(st, self.models.transmute(self, st, v, frm, to))]
        if k.startswith("PtrToPtr") or k == "BoxDerefTransmute":
            if isinstance(v, Ptr) and to["k"] in ("ptr", "ref") and frm["k"] in ("ptr", "ref"):
                return [(st, self.models.ptr_cast(self, st, v, frm["t"], to["t"]))]
            return [(st, v)]
        if k.startswith("PointerCoercion(Unsize"):
            if isinstance(v, Ptr) and to["k"] in ("ptr", "ref") and self.ty(to["t"])["k"] == "slice":
                f = self.ty(frm["t"])
                if f["k"] == "array":
                    return [(st, Ptr(v.c, v.p + (("i", ZERO),), L.of(f["n"])))]
            return [(st, v)]
        if k.startswith("PointerCoercion"):
            return [(st, v)]
        raise Unsupported("cast " + k)

    # ------------------------------------------------------------ running
    # ------------------------------------------------------------ merging
    def merge_outs(self, entry, outs):
        """Merge returns of one shape where their union is again one state, exactly."""
        if len(outs) < 2:
            return outs
        groups, rest = {}, []
        for o in outs:
            if o.k != "ret":
                rest.append(o)
                continue
            o.st.saturate()
            if o.st.dead():
                continue
            ls = []
            sk = (shape_of(o.v, ls),) + self.full_shape(entry, o.st, ls)
            groups.setdefault(sk, []).append((o, ls))
        res = []
        for g in groups.values():
            if len(g) > 1:
                g = self.merge_group(entry, g)
            res.extend(o for o, _ in g)
        return res + rest

    def try_merge(self, entry, a, b):
        """The union of two states if it is exact: a itself when it covers b."""
        g = []
        for s in (a, b):
            s = s.copy()
            s.saturate()
            ls = []
            sk = self.full_shape(entry, s, ls)
            red = [s.sys.red(e) for e in ls]
            o = Out(s, "ret", UNIT)
            if red != ls:
                self.rewrite(entry, s, red, o)
            s.gc()
            g.append((o, red, sk))
        if g[0][2] != g[1][2] or len(g[0][1]) != len(g[1][1]):
            return None
        m = self.merge_two(entry, g[0][:2], g[1][:2])
        if m is None:
            return None
        return a if m[0].st.covered else m[0].st

    def full_shape(self, entry, st, ls):
        sk, l = self.shape(entry, st)
        ls.extend(l)
        out = [sk]
        for oid, o in st.orgs.items():
            if entry.orgs.get(oid) is o:
                continue
            out.append((oid, o.lv, o.parent and o.parent[0], tuple(k for _, k in o.kids), len(o.cuts), tuple(o.ranks)))
            if o.parent:
                ls.append(o.parent[1])
            ls.extend((o.s, o.e, o.n))
            ls.extend(j for j, _ in o.kids)
            for i, c in o.cuts:
                ls.append(i)
                ls.append(c)
            for p, q in o.ranks.values():
                ls.append(p)
                ls.append(q)
        out.append(tuple(st.mat.items()) if st.mat != entry.mat else None)
        out.append(st.trail[len(entry.trail):])
        out.append(st.unwinding)
        return tuple(out)

    def merge_group(self, entry, g):
        for k, (o, ls) in enumerate(g):
            red = [o.st.sys.red(e) for e in ls]
            if red != ls:
                self.rewrite(entry, o.st, red, o)
                g[k] = (o, red)
            o.st.gc(self.syms_in(o.v))
        work = True
        while work and len(g) > 1:
            work = False
            for i in range(len(g)):
                for j in range(i + 1, len(g)):
                    m = self.merge_two(entry, g[i], g[j])
                    if m is not None:
                        g = [x for k, x in enumerate(g) if k not in (i, j)] + [m]
                        work = True
                        break
                if work:
                    break
        return g

    def syms_in(self, v):
        from .dom import syms_of
        s = set()
        syms_of(v, s)
        return s

    def merge_two(self, entry, x, y):
        (oa, la), (ob, lb) = x, y
        if len(la) != len(lb):
            return None
        A, B = oa.st, ob.st
        if len(A.pend) > 40 or len(B.pend) > 40:
            return None
        # every number of one must be that of the other
        for p, q in zip(la, lb):
            if p == q:
                continue
            if A.sys.entails_eq(p - q):
                if B.sys.entails_eq(p - q):
                    continue
            return self.merge_renamed(entry, x, y)
        return self.merge_facts(entry, x, y)

    def merge_renamed(self, entry, x, y):
        """Numbers that differ get a common name first."""
        (oa, la), (ob, lb) = x, y
        A, B = oa.st, ob.st
        known = set()
        pairs = {}
        ren = []
        for p, q in zip(la, lb):
            if p == q:
                ren.append(p)
                continue
            if A.sys.entails_eq(p - q) and B.sys.entails_eq(p - q):
                ren.append(p)
                continue
            if not p.t and not q.t:
                return None
            k = (p, q)
            if k not in pairs:
                # p's own expression may do for both
                pairs[k] = None
            ren.append(k)
        # prefer expressing both by one side's expression when that holds in both
        for k in pairs:
            p, q = k
            if B.sys.entails_eq(p - q):
                pairs[k] = p
            elif A.sys.entails_eq(p - q):
                pairs[k] = q
            else:
                return None
        ren = [pairs[r] if isinstance(r, tuple) else r for r in ren]
        return self.merge_facts(entry, (oa, la), (ob, lb), ren)

    def merge_facts(self, entry, x, y, ren=None):
        (oa, la), (ob, lb) = x, y
        A, B = oa.st, ob.st
        SA, SB = A.sys, B.sys
        same, ra, rb = [], [], []
        fa = {(e.t, e.c): e for e in SA.facts()}
        fb = {(e.t, e.c): e for e in SB.facts()}
        for k, e in fa.items():
            if k in fb or SB.entails_ge(e):
                same.append(e)
            else:
                ra.append(e)
                if len(ra) > 12:
                    return None
        for k, e in fb.items():
            if k in fa:
                continue
            if SA.entails_ge(e):
                same.append(e)
            else:
                rb.append(e)
                if len(rb) > 12:
                    return None
        pa = [p for p in A.pend if not any(p == q for q in B.pend)]
        pb = [p for p in B.pend if not any(p == q for q in A.pend)]
        keep = [p for p in A.pend if p not in pa]

        def holds(S, p):
            T = S.copy()
            for e in p[0]:
                T.sys.ge(e)
            T._satkey = None
            return T.sys.dead or T.sys.entails_ge(p[1])
        for p in pa:
            if holds(B, p):
                keep.append(p)
            else:
                ra.append(p)
        for p in pb:
            if holds(A, p):
                keep.append(p)
            else:
                rb.append(p)
        if len(ra) * len(rb) > 40:
            return None
        H = Sys()
        for e in same:
            H.ge(e)
        if ra and rb:
            def refute(S, p):
                if isinstance(p, L):
                    S.ge(-p - 1)
                else:
                    for e in p[0]:
                        S.ge(e)
                    S.ge(-p[1] - 1)
            U = A.copy()
            U.pend = keep
            for a in ra:
                T = H.copy()
                refute(T, a)
                for b in rb:
                    W = T.copy()
                    if not W.dead:
                        refute(W, b)
                    if W.feasible():
                        U.sys, U.pend, U._satkey = W, keep, None
                        if U.alive():
                            return None
        st = A
        st.covered = not ra
        st.sys = H
        st.pend = keep
        st._satkey = None
        st.nid = max(A.nid, B.nid)
        st.taint = A.taint or B.taint
        v = oa.v
        if ren is not None and ren != la:
            self.rewrite(entry, st, ren, oa)
            return (oa, ren)
        return (oa, la)

    def rewrite(self, entry, st, ren, o):
        """Put the numbers `ren` where full_shape found the old ones."""
        it = iter(ren)
        o.v = reshape(o.v, it)
        for c in sorted(st.cells):
            v = st.cells[c]
            if v is not entry.cells.get(c):
                renumber(st, c, v, it)
        for oid, g in st.orgs.items():
            if oid >= FOLDED and entry.orgs.get(oid) is not g:
                for _ in range(1 + 2 * len(g.cuts[2:])):
                    next(it)
        for oid, g in list(st.orgs.items()):
            if entry.orgs.get(oid) is g:
                continue
            h = st.orgs[oid] = g.copy()
            if g.parent:
                h.parent = (g.parent[0], next(it))
            h.s, h.e, h.n = next(it), next(it), next(it)
            h.kids = tuple((j, k) for j, k in zip([next(it) for _ in g.kids], [k for _, k in g.kids]))
            h.cuts = tuple((next(it), next(it)) for _ in g.cuts)
            h.ranks = {k: (next(it), next(it)) for k in g.ranks}

    def run_fn(self, st, key, args, depth=0, keep=False):
        """Analyse a call: [Out]"""
        if depth > self.maxdepth:
            raise Unsupported("call depth")
        same = sum(1 for fr, _ in self.stack if fr.key == key)
        if same > 7:
            self.issue(st, "recursion", "%s calls itself over and over" % short(key))
        info = self.prog.info(key)
        self.fns.add(key)
        entry = st.copy()
        cells = []
        for i in range(len(info.locals)):
            cells.append(st.new_cell())
        n = info.args
        if len(args) != n and info.b.get("spread"):
            raise Unsupported("spread arguments")
        for i, a in enumerate(args):
            st.cells[cells[i + 1]] = a
        fr = Frame(key, info, cells, depth, args)
        self.stack.append((fr, info.b["sp"]))
        try:
            rets, _, _ = self.run_blocks(st, fr, 0, None, None)
        finally:
            self.stack.pop()
        outs = []
        for o in rets:
            s = o.st
            if not keep:
                for c in cells:
                    if c in s.cells:
                        if isinstance(s.cells[c], Opq) and s.cells[c].t == "pinned":
                            continue
                        del s.cells[c]
            outs.append(o)
        if not keep and self.merging:
            outs = self.merge_outs(entry, outs)
        return outs

    def run_blocks(self, st, fr, start, head, region):
        """Run from a block: (outs, states back at `head`, [(state, block)] leaving `region`)."""
        work = [(st, start, True)]
        outs, backs, exits = [], [], []
        while work:
            s, b, first = work.pop()
            if region is not None and b not in region and not fr.info.blocks[b]["c"]:
                exits.append((s, b))
                continue
            if b == head and not first:
                backs.append(s)
                continue
            if b in fr.info.heads and not (first and b == head):
                try:
                    o2, ex = self.solve_loop(s, fr, b)
                except PathEnd:
                    continue
                outs.extend(o2)
                for s2, b2 in ex:
                    work.append((s2, b2, False))
                continue
            try:
                for item in self.block(s, fr, b):
                    if isinstance(item, Out):
                        outs.append(item)
                    else:
                        work.append((item[0], item[1], False))
            except PathEnd:
                pass
            except Unsupported as e:
                self.note("%s in %s" % (e, short(fr.key)))
        return outs, backs, exits

    def block(self, st, fr, b):
        """Execute one block: successors [(state, block)] and Outs."""
        self.steps += 1
        if self.steps > self.limit:
            raise Budget()
        bl = fr.info.blocks[b]
        cur = [st]
        for s in bl["s"]:
            k = s["s"]
            if k == "assign":
                nxt = []
                self.stack[-1] = (fr, s.get("sp", self.stack[-1][1]))
                for x in cur:
                    try:
                        for y, v in self.rvalue(x, fr, s["r"]):
                            nxt.extend(self.assign(y, fr, s["p"], v))
                    except PathEnd:
                        pass
                    except Unsupported as e:
                        self.note("%s in %s" % (e, short(fr.key)))
                cur = nxt
            elif k == "dead":
                for x in cur:
                    self.dead_local(x, fr, s["l"])
            elif k == "live":
                for x in cur:
                    x.cells[fr.cells[s["l"]]] = UNINIT
            elif k == "setdiscr":
                nxt = []
                for x in cur:
                    for y, ptr in self.place(x, fr, s["p"]):
                        for z, v in self.load(y, ptr):
                            nxt.extend(self.store(z, ptr, Agg(s["v"], v.f if isinstance(v, Agg) else ())))
                cur = nxt
            elif k == "copynonoverlapping":
                nxt = []
                for x in cur:
                    for y, a in self.operand(x, fr, s["src"]):
                        for z, d in self.operand(y, fr, s["dst"]):
                            for w, n in self.operand(z, fr, s["count"]):
                                nxt.extend(self.models.copy_range(self, w, a, d, n))
                cur = nxt
            elif k == "assume":
                pass
            if not cur:
                return []
        out = []
        self.stack[-1] = (fr, bl["t"].get("sp", self.stack[-1][1]))
        for x in cur:
            try:
                out.extend(self.terminator(x, fr, bl["t"]))
            except PathEnd:
                pass
            except Unsupported as e:
                self.note("%s in %s" % (e, short(fr.key)))
        return out

    def dead_local(self, st, fr, l):
        st.cells[fr.cells[l]] = UNINIT

    def terminator(self, st, fr, t):
        k = t["k"]
        if k == "goto":
            return [(st, t["t"])]
        if k == "return":
            return [Out(st, "ret", st.cells[fr.cells[0]])]
        if k == "switch":
            out = []
            for s, v in self.operand(st, fr, t["o"]):
                out.extend(self.switch(s, v, t))
            return out
        if k == "assert":
            out = []
            for s, v in self.operand(st, fr, t["o"]):
                if not isinstance(v, Cond):
                    raise Unsupported("assert on %r" % (v,))
                c = v if t["expected"] else v.neg()
                good, bad = s.branch(c)
                out.extend((g, t["t"]) for g in good)
                for b in bad:
                    out.extend(self.panic(b, "assert %s" % t["msg"]))
            return out
        if k == "call":
            return self.call(st, fr, t)
        if k == "drop":
            out = []
            if not self.needs_drop(t["ty"]):
                return [(st, t["t"])]
            for s, ptr in self.place(st, fr, t["p"]):
                for o in self.drop_at(s, ptr, t["ty"], fr.depth):
                    out.extend(self.after(o, fr, t, None))
            return out
        if k == "unreachable":
            if st.feasible():
                self.issue(st, "unreachable", "code marked unreachable is reached")
            return []
        if k == "resume":
            return [Out(st, "unwind")]
        if k == "abort":
            return []
        raise Unsupported("terminator " + k)

    def after(self, o, fr, t, dest):
        """Continue after a call or drop."""
        if o.k == "ret":
            if t.get("t") is None:
                return []
            s = o.st
            if dest is None:
                return [(s, t["t"])]
            return [(s2, t["t"]) for s2 in self.assign(s, fr, dest, o.v)]
        if o.k == "unwind":
            u = t.get("u")
            if isinstance(u, int):
                return [(o.st, u)]
            return [o] if u == "continue" else []
        return [o]

    def panic(self, st, msg):
        """A panic raised by the library itself."""
        if not st.feasible():
            return []
        if self.unwind:
            if st.unwinding:
                return []           # a panic while unwinding aborts
            st.unwinding = True
            return [Out(st, "unwind")]
        return [Out(st, "panic", (msg, self.site(), st.taint))]

    def switch(self, st, v, t):
        out = []
        if isinstance(v, Cond):
            tgt = {int(x): b for x, b in t["vals"]}
            tb, fb = tgt.get(1, t["otherwise"]), tgt.get(0, t["otherwise"])
            if v.k == "T":
                return [(st, tb)]
            if v.k == "F":
                return [(st, fb)]
            good, bad = st.branch(v)
            return [(s, tb) for s in good] + [(s, fb) for s in bad]
        if v is UNINIT or v is MOVED:
            self.issue(st, "uninit", "control depends on an uninitialised value")
        if not isinstance(v, L):
            raise Unsupported("switch on %r" % (v,))
        c = st.sys.red(v).const()
        bits = None
        if c is not None:
            for x, b in t["vals"]:
                x = int(x)
                if x == c or (c < 0 and x in (c + (1 << 8), c + (1 << 16), c + (1 << 32), c + (1 << 64))):
                    return [(st, b)]
            return [(st, t["otherwise"])]
        rest = [st]
        for x, b in t["vals"]:
            nr = []
            for s in rest:
                g, bd = s.branch(eq(v - int(x)))
                out.extend((y, b) for y in g)
                nr.extend(bd)
            rest = nr
        out.extend((s, t["otherwise"]) for s in rest)
        return out

    def call(self, st, fr, t):
        cur = [(st, ())]
        for o in t["args"]:
            nxt = []
            for s, vs in cur:
                for s2, v in self.operand(s, fr, o):
                    nxt.append((s2, vs + (v,)))
            cur = nxt
        out = []
        for s, vs in cur:
            for s2, f in self.operand(s, fr, t["f"]):
                try:
                    outs = self.apply(s2, f, list(vs), fr, t)
                except PathEnd:
                    continue
                except Unsupported as e:
                    self.note("%s in %s" % (e, short(fr.key)))
                    continue
                for o in outs:
                    if o.st.dead():
                        continue
                    try:
                        out.extend(self.after(o, fr, t, t["dest"]))
                    except PathEnd:
                        continue
        return out

    def apply(self, st, f, args, fr, t):
        """Call a function value: [Out]"""
        if not isinstance(f, FnV):
            raise Unsupported("call of %r" % (f,))
        c = f.c
        m = self.models.find(self, c)
        depth = (fr.depth if fr else 0) + 1
        if m is not None:
            return m(self, st, args, c, t, depth)
        key = c.get("given")
        if key not in self.prog.bodies:
            key = c.get("key")
        if key in self.prog.bodies:
            if self.again is not None and self.starts_over(fr, key, args, t) and self.again(st, key, args):
                return []
            return self.call_body(st, key, args, c, depth)
        if t is not None and t.get("t") is None:
            return self.panic(st, c["path"])
        raise Unsupported("call of " + (c.get("rpath") or c["path"]))

    def starts_over(self, fr, key, args, t):
        """The function calls itself on what it was called on, and returns what that gives."""
        if fr is None or t is None or key != fr.key or not args or not fr.args or not isinstance(args[0], Ptr) or args[0] != fr.args[0]:
            return False
        return self.returns(fr.info, t.get("t"), t["dest"])

    def returns(self, info, b, dest):
        """From this block on the function only drops what it has left and returns, with the result in `dest`."""
        if len(dest) != 1 or b is None:
            return False
        work, seen = [(b, dest[0])], set()
        while work:
            b, at = work.pop()
            if (b, at) in seen:
                continue
            seen.add((b, at))
            blk = info.b["blocks"][b]
            for x in blk["s"]:
                if x["s"] != "assign":
                    continue
                r, p = x["r"], x["p"]
                if r["r"] == "use" and r["o"]["o"] in ("move", "copy") and r["o"]["p"] == [at]:
                    if len(p) != 1:
                        return False
                    at = p[0]
                elif len(p) != 1 or p[0] in (0, at) or r["r"] not in ("use", "discr"):
                    return False
            t = blk["t"]
            k = t["k"]
            if k == "return":
                if at != 0:
                    return False
            elif k in ("goto", "drop"):
                work.append((t["t"], at))
            elif k == "switch":
                work += [(x, at) for x in [t["otherwise"]] + [v[1] for v in t["vals"]]]
            elif k != "unreachable":
                return False
        return True

    def call_body(self, st, key, args, c, depth):
        body = self.prog.bodies[key]
        if body.get("spread") and body["args"] == len(args):
            pass
        elif "{closure#" in key and body["args"] != len(args) or (c.get("trait", "").startswith("std::ops::Fn") and "{closure" in key):
            # rust-call: the arguments come as a tuple
            self_, tup = args[0], args[1]
            extra = list(tup.f) if isinstance(tup, Agg) else []
            t1 = self.ty(body["locals"][1])
            tmp = None
            if t1["k"] == "ref" and not isinstance(self_, Ptr):
                tmp = st.new_cell(self_)
                self_ = Ptr(tmp)
            if t1["k"] == "ref" and isinstance(self_, Ptr):
                for s, v in self.load(st, self_):
                    if isinstance(v, Ptr):
                        self_ = v
            args = [self_] + extra
        return self.run_fn(st, key, args, depth)

    # ------------------------------------------------------------ dropping
    def drop_at(self, st, ptr, t, depth):
        """Drop the value of type t at a place: [Out]"""
        if not self.needs_drop(t):
            return [Out(st, "ret", UNIT)]
        y = self.ty(t)
        k = y["k"]
        m = self.models.drop_model(self, st, ptr, t, depth)
        if m is not None:
            return m
        if k == "param" or k == "alias":
            return self.models.drop_user(self, st, ptr, t)
        fields = []
        outs = [Out(st, "ret", UNIT)]
        if k == "adt":
            if y["has_drop"]:
                key = self.drop_key(y)
                outs = self.run_fn(st, key, [ptr], depth + 1)
            vs = y["variants"]
        elif k == "tuple":
            vs = [{"fields": [[str(i), x] for i, x in enumerate(y["ts"])]}]
        elif k == "closure":
            vs = [{"fields": [[str(i), x] for i, x in enumerate(y["ups"])]}]
        else:
            raise Unsupported("drop of " + y["s"])
        res = []
        for o in outs:
            if o.k != "ret":
                res.append(o)
                continue
            for s, v in self.load(o.st, ptr):
                if v is UNINIT or v is MOVED:
                    self.try_issue(s, "uninit", "an uninitialised or already moved value of type %s is dropped" % y["s"])
                    continue
                if not isinstance(v, Agg):
                    raise Unsupported("drop of %r" % (v,))
                cur = [Out(s, "ret", UNIT)]
                vi = v.v if len(vs) > 1 else 0
                for i, f in enumerate(vs[vi]["fields"]):
                    if not self.needs_drop(f[1]):
                        continue
                    nxt = []
                    for c in cur:
                        if c.k != "ret":
                            nxt.append(c)
                            continue
                        q = ptr if self.transparent(t) else Ptr(ptr.c, ptr.p + (i,))
                        nxt.extend(self.drop_at(c.st, q, f[1], depth))
                    cur = nxt
                res.extend(cur)
        return res

    def drop_key(self, y):
        base = y["has_drop"]
        if y.get("drop_key") in self.prog.bodies:
            return y["drop_key"]
        for k in self.prog.bodies:
            if k.startswith(base + "<") and self.drop_matches(k, base, y):
                return k
        raise Unsupported("drop glue of " + y["s"])

    def drop_matches(self, k, base, y):
        body = self.prog.bodies[k]
        t = self.ty(body["locals"][1])
        return t["k"] == "ref" and self.tstr(t["t"]) == y["s"]

    # ------------------------------------------------------------ loops
    def natural(self, info, head):
        key = (info.key, head)
        r = self.loops.get(key)
        if r is None:
            from .mir import succs
            preds = {}
            for b in info.reach:
                for s in succs(info.blocks[b]["t"]):
                    preds.setdefault(s, []).append(b)
            # blocks that reach a back edge source without passing the head
            reach_from = set()
            todo = [head]
            while todo:
                b = todo.pop()
                if b in reach_from:
                    continue
                reach_from.add(b)
                todo.extend(succs(info.blocks[b]["t"]))
            region = {head}
            todo = [p for p in preds.get(head, ()) if p in reach_from]
            while todo:
                b = todo.pop()
                if b in region:
                    continue
                region.add(b)
                todo.extend(p for p in preds.get(b, ()) if p in reach_from)
            r = self.loops[key] = region
        return r

    def solve_loop(self, st, fr, head):
        region = self.natural(fr.info, head)
        born = dom._ctr[0]
        self.kill_dead(st, fr, head)
        if self.fold:
            self.fold(st, fr)
        entry = st
        inv = {}
        order = []
        todo = [(st.copy(), 0, len(st.orgs))]
        self.recording -= 1000
        joins = {}
        try:
            while todo:
                s, it, from_orgs = todo.pop()
                norgs = len(s.orgs)
                self.kill_dead(s, fr, head)
                if self.fold:
                    self.fold(s, fr)
                sk, ls = self.shape(entry, s)
                if it < self.unroll:
                    sk = ("it", it, sk)
                elif self.unroll:
                    continue
                cur = inv.get(sk)
                if cur is None:
                    if len(inv) > (3000 if self.unroll else 200 if self.fold else 40):
                        raise Unsupported("too many loop states")
                    inv[sk] = (s, ls, ())
                    order.append(sk)
                else:
                    if self.unroll:
                        sk = sk + (len(inv),)
                        if len(inv) > 3000:
                            raise Unsupported("too many loop states")
                        inv[sk] = (s, ls, ())
                        order.append(sk)
                    elif norgs > len(entry.orgs) and len(s.orgs) > from_orgs:
                        # it went on to a node not seen before: keep it apart (trees are finite)
                        m = self.try_merge(entry, cur[0], s)
                        if m is None:
                            sk = sk + ("apart", len(inv))
                            if len(inv) > (200 if self.fold else 40):
                                raise Unsupported("too many loop states")
                            inv[sk] = (s, ls, ())
                            order.append(sk)
                        elif m is cur[0]:
                            continue
                        else:
                            _, l2 = self.shape(entry, m)
                            inv[sk] = (m, l2, ())
                    else:
                        j = self.join(entry, cur, (s, ls), born)
                        if j is None:
                            continue
                        joins[sk] = joins.get(sk, 0) + 1
                        if TRACE:
                            print("  " * len(self.stack), "join", short(fr.key), head, joins[sk], [x for x in j[1]], "keep", j[2])
                        if joins[sk] > (60 if self.fold else 12):
                            raise Unsupported("loop does not stabilise")
                        inv[sk] = j
                s0 = inv[sk][0]
                _, backs, _ = self.run_blocks(s0.copy(), fr, head, head, region)
                for b in backs:
                    todo.append((b, it + 1, len(s0.orgs)))
        finally:
            self.recording += 1000
        outs, exits = [], []
        for sk in order:
            s0 = inv[sk][0]
            s1 = s0.copy()
            if self.recording > 0:
                self.progress_begin(s1, fr, head)
            o, backs, ex = self.run_blocks(s1, fr, head, head, region)
            if self.recording > 0:
                self.check_progress(entry, inv[sk], sk, backs, fr, head)
            outs.extend(o)
            exits.extend(ex)
        return outs, exits

    def progress_begin(self, st, fr, head):
        pass

    def check_progress(self, entry, inv, sk, backs, fr, head):
        """A turn of the loop that changes nothing repeats for ever."""
        s0, ls0, _ = inv
        sk0 = sk
        while sk0 and sk0[0] == "it":
            sk0 = sk0[2]
        for b in backs:
            b = b.copy()
            self.kill_dead(b, fr, head)
            sk1, ls1 = self.shape(entry, b)
            if sk1 != sk0 or len(ls0) != len(ls1):
                continue
            if len(b.log) != len(s0.log):
                continue
            for x, y in zip(ls0, ls1):
                b.eq(x - y)
                if b.dead():
                    break
            else:
                if b.feasible() and self.unchanged_iters(s0, b):
                    self.try_issue(b, "nonterm", "a turn of the loop can leave everything as it was")

    def unchanged_iters(self, s0, b):
        return True

    def kill_dead(self, st, fr, head):
        live, borrowed = fr.info.unwinding if self.unwind else (fr.info.live, fr.info.borrowed)
        live = live.get(head, set()) | borrowed
        for i, c in enumerate(fr.cells):
            if i not in live and st.cells.get(c) is not UNINIT:
                st.cells[c] = UNINIT

    def shape(self, entry, st):
        """The structure of what differs from the state at loop entry, and the numbers in it."""
        ls = []
        sk = []
        ec = entry.cells
        for c in sorted(st.cells):
            v = st.cells[c]
            o = ec.get(c)
            if v is o:
                continue
            if o is None and c >= entry.nid:
                sk.append(("new", c, shape_of(v, ls)))
            else:
                sk.append((c, shape_of(v, ls)))
        for c in ec:
            if c not in st.cells:
                sk.append(("gone", c))
        for c, n in st.nodes.items():
            o = entry.nodes.get(c)
            if o is not n:
                sk.append(("node", c, n.oid, n.excl, n.freed))
        for o in st.orgs:
            if o not in entry.orgs:
                sk.append(("org", o))
            if o >= FOLDED and entry.orgs.get(o) is not st.orgs[o]:
                g = st.orgs[o]
                sk.append(("folded", o, len(g.cuts), g.exact))
                ls.append(g.s)
                for i, c in g.cuts[2:]:
                    ls.append(i)
                    ls.append(c)
        sk.append(st.log[len(entry.log):])
        sk.append(tuple(sorted((k, v) for k, v in st.hook.items() if entry.hook.get(k) is not v)) if st.hook is not entry.hook else ())
        return tuple(sk), ls

    def join(self, entry, cur, new, born):
        """Join two states of one shape; None when the new one is covered."""
        s0, l0, extra = cur
        s1, l1 = new
        if len(l0) != len(l1):
            raise Unsupported("loop states do not line up")
        # cells equal to the entry in one but not the other have different shapes, so positions match
        gen = {}
        ren = []
        for k, (a, b) in enumerate(zip(l0, l1)):
            if a == b and all(dom.lin_age(s) <= born for s in a.syms()):
                ren.append(a)
                continue
            key = (a, b)
            if key in gen:
                ren.append(gen[key])
                continue
            # already generalised symbol whose new value fits
            if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1 and a.t[0][0].startswith("x_"):
                x = a
            else:
                x = fresh("x")
            gen[key] = x
            ren.append(x)
        if not gen:
            # same numbers: only facts can differ
            keep = [c for c in extra if s1.q(c)]
            if len(keep) == len(extra):
                return None
            js = self.rebuild(entry, s0, l0, ren, keep)
            return (js, ren, tuple(keep))
        A, B = s0.copy(), s1.copy()
        pairs = {}
        for (a, b), x in gen.items():
            nm = x.t[0][0]
            if nm in pairs:
                # one symbol, two values: split it
                y = fresh("x")
                pairs[y.t[0][0]] = (a, b)
                ren = [y if (p, q) == (a, b) else r for p, q, r in zip(l0, l1, ren)]
                gen[(a, b)] = y
            else:
                pairs[nm] = (a, b)
        newA = []
        for nm, (a, b) in pairs.items():
            if a.t == ((nm, 1),) and a.c == 0:
                pass
            else:
                A.eq(L.sym(nm) - a)
        # B speaks of the same symbols: rename B's own uses of them first
        subB = {}
        for nm in pairs:
            subB[nm] = None
        B2 = B
        clash = [nm for nm in pairs if nm in B.sys.sub or any(nm in [s for s, _ in t] for t in B.sys.cons)]
        m = {nm: fresh("o") for nm in clash}
        if m:
            B2 = rename_state(B, m)
        for nm, (a, b) in pairs.items():
            B2.eq(L.sym(nm) - b.subst(m))
        if A.dead() or B2.dead():
            return None
        # candidate facts
        xs = list(pairs)
        if extra and all(p[0] == L.sym(n) for n, p in pairs.items()):
            cands = list(extra)
        else:
            cands = list(extra) + self.candidates(A, B2, pairs, m, entry)
            for e in self.quantities(entry):
                for x in pairs:
                    for c in (0, 1, -1):
                        cands.append(e - L.sym(x) + c)
        keep, seen = [], set()
        for c in cands:
            key = (c.t, c.c)
            if key in seen:
                continue
            seen.add(key)
            if A.q(c) and B2.q(c):
                keep.append(c)
        if extra and len(keep) == len(extra) and all(p[0] == L.sym(n) for n, p in pairs.items()) and all(
                k is e for k, e in zip(keep, extra)):
            return None
        # facts implied by others stay candidates: the others may not survive the next join
        js = self.rebuild(entry, s0, l0, ren, self.slim(entry, keep))
        return (js, ren, tuple(keep))

    def slim(self, entry, keep):
        """Drop candidates that follow from the entry facts and the others kept."""
        s = entry.copy()
        out = []
        for c in sorted(keep, key=lambda c: (len(c.t), abs(c.c))):
            if s.sys.entails_ge(c):
                continue
            s.sys.ge(c)
            out.append(c)
        return out

    def quantities(self, entry):
        """Compound numbers the current function's variables hold on entry (a slice's length, say)."""
        out = []
        fr = self.stack[-1][0] if self.stack else None
        for c in (fr.cells if fr else ()):
            v = entry.cells.get(c)
            e = v.m if isinstance(v, Ptr) else v
            if isinstance(e, L) and 2 <= len(e.t) <= 4 and e not in out:
                out.append(e)
        return out[:8]

    def candidates(self, A, B, pairs, m, entry):
        rel = set()
        for nm, (a, b) in pairs.items():
            for e in (a, b):
                for s in e.syms():
                    rel.add(s)
                for s in A.sys.red(e).syms():
                    rel.add(s)
                for s in B.sys.red(e.subst(m)).syms():
                    rel.add(s)
        known = set()
        for t in entry.sys.cons:
            for s, _ in t:
                known.add(s)
        for s in entry.sys.sub:
            known.add(s)
        # symbols tied to the generalised ones by a constraint not known at entry
        for S in (A, B):
            for t in S.sys.cons:
                if t in entry.sys.cons and entry.sys.cons[t] <= S.sys.cons[t]:
                    continue
                ss = [s for s, _ in t]
                if len(ss) <= 4 and any(s in rel or s in pairs for s in ss):
                    rel.update(ss)
        more, near = set(), set()
        for S in (A, B):
            for t, c in S.sys.cons.items():
                if entry.sys.cons.get(t, c + 1) > c:
                    more.update(s for s, _ in t)
            for s, e in S.sys.sub.items():
                if s not in entry.sys.sub:
                    more.add(s)
        # and symbols that stay within one of those
        twin = {}
        for t, c in entry.sys.cons.items():
            if len(t) == 2 and t[0][1] == -t[1][1] and entry.sys.cons.get(tuple((s, -k) for s, k in t), 99) + c <= 2:
                for (s, _), (o, _) in (t, t[::-1]):
                    twin.setdefault(s, o)
                    if s in rel or s in more:
                        near.add(o)
        for s, e in entry.sys.sub.items():
            # ranks of keys that are known to be fixed places
            if s[0] in "pqPQ" and len(e.t) == 1 and (e.t[0][0] in rel or e.t[0][0] in more):
                near.add(s)
        more = sorted(s for s in more | near if s in known and s not in pairs and s not in rel)
        rel = {s for s in rel if s in known and s not in pairs}
        out = []
        xs = list(pairs)
        ys = xs + sorted(rel) + more
        if len(ys) > 24:
            ys = ys[:24]
        for i, x in enumerate(xs):
            X = L.sym(x)
            for c in (0, 1, -1):
                out.append(X - c)
                out.append(-X + c)
            for y in ys:
                if y == x or (y in pairs and y < x):
                    continue
                for c in (0, 1, -1):
                    out.append(X - L.sym(y) + c)
                    out.append(L.sym(y) - X + c)
        # facts whose bound moves in step with a generalised number
        for nm, (a, b) in pairs.items():
            ra, rb = A.sys.red(a), B.sys.red(b.subst(m))
            if a.t == ((nm, 1),):
                continue
            d = rb - ra
            if d.t or not d.c or not all(s in known for s in ra.syms()):
                continue
            for t, ca in A.sys.cons.items():
                cb = B.sys.cons.get(t)
                if cb is None or cb == ca or (cb - ca) % d.c or not all(s in known for s, _ in t):
                    continue
                out.append(L(t, ca) + (L.sym(nm) - ra).scale((cb - ca) // d.c))
        # equalities over the generalised symbols
        syms = ys
        ea, ia = A.sys.project(syms)
        eb, ib = B.sys.project(syms)
        for e in affine_join(ea, eb, syms):
            out.append(e)
            out.append(-e)
        for e in ia + ib:
            if len(e.t) <= 4 and any(s in pairs for s, _ in e.t):
                out.append(e)
                for s, _ in e.t:
                    if s in twin:
                        # the position before a key and the one after it
                        out.append(e + 1)
                        out.append(e.subst({s: L.sym(twin[s])}))
        return out

    def rebuild(self, entry, s0, l0, ren, keep):
        """A state with s0's structure, numbers replaced, holding the entry facts and `keep`."""
        js = s0.copy()
        js.sys = entry.sys.copy()
        js.pend = list(entry.pend)
        js._satkey = None
        js.taint = True
        it = iter(ren)
        ec = entry.cells
        for c in sorted(s0.cells):
            v = s0.cells[c]
            if v is ec.get(c):
                continue
            renumber(js, c, v, it)
        # facts about origins found since entry are facts about their symbols; keep those tables only
        for o, g in entry.orgs.items():
            js.orgs[o] = g
        for c in keep:
            js.ge(c)
        for o, g in s0.orgs.items():
            if o >= FOLDED and entry.orgs.get(o) is not g:
                js.refold(o, next(it), [(next(it), next(it)) for _ in g.cuts[2:]])
        return js


class Budget(Exception):
    pass


def add_index(ptr, i):
    if ptr.c is None:
        return ptr
    if ptr.p and isinstance(ptr.p[-1], tuple):
        return Ptr(ptr.c, ptr.p[:-1] + (("i", ptr.p[-1][1] + i),))
    if isinstance(i, L) and i.const() == 0:
        return Ptr(ptr.c, ptr.p)
    return Ptr(ptr.c, ptr.p + (("i", L.of(i)),))


def seg_take(seg, i, m):
    n, k, x, o = seg
    if k == "G":
        return (m, k, x + i, o)
    if k in ("S", "C"):
        return (m, k, x, o + i)
    return (m, k, x, o)


def tidy(st, segs):
    out = []
    red = st.sys.red
    for seg in segs:
        n = red(seg[0])
        if not n.t and n.c == 0:
            continue
        seg = (n,) + seg[1:]
        if out:
            p = out[-1]
            if p[1] == seg[1]:
                k = seg[1]
                if k == "U":
                    out[-1] = (red(p[0] + n), "U", None, None)
                    continue
                if k == "G" and not (red(p[2] + p[0] - seg[2])).t and red(p[2] + p[0] - seg[2]).c == 0:
                    out[-1] = (red(p[0] + n), "G", p[2], None)
                    continue
                if k in ("S", "C") and p[2] == seg[2]:
                    d = red(p[3] + p[0] - seg[3])
                    if not d.t and d.c == 0:
                        out[-1] = (red(p[0] + n), k, p[2], p[3])
                        continue
        out.append(seg)
    return tuple(out)


def shape_of(v, ls):
    if isinstance(v, L):
        ls.append(v)
        return "n"
    if isinstance(v, Agg):
        return ("a", v.v) + tuple(shape_of(x, ls) for x in v.f)
    if isinstance(v, Ptr):
        p = []
        for x in v.p:
            if isinstance(x, int):
                p.append(x)
            elif x[0] == "i":
                ls.append(x[1])
                p.append("i")
            else:
                p.append(x)
        if v.m is not None:
            ls.append(v.m)
        return ("p", v.c, tuple(p), v.m is not None)
    if isinstance(v, Cond):
        if v.k in ("T", "F"):
            return v.k
        if v.k in ("and", "or"):
            return (v.k, shape_of(v.a, ls), shape_of(v.b, ls))
        ls.append(v.a)
        return v.k
    if isinstance(v, Key):
        if v.k == "N":
            return ("kN", v.a)
        if v.k == "G":
            ls.append(v.a)
            return "kG"
        ls.append(v.b)
        return ("kS", v.a)
    if isinstance(v, Val):
        if v.k == "G":
            ls.append(v.a)
            return "vG"
        return ("v", v.k, v.a)
    if isinstance(v, Handle):
        if isinstance(v.n, tuple):
            ls.append(v.n[2])
            return ("hC", v.n[1])
        return ("h", v.n)
    if isinstance(v, Arr):
        out = ["arr", v.e]
        for n, k, x, o in v.s:
            ls.append(n)
            if k == "G":
                ls.append(x)
                out.append("G")
            elif k in ("S", "C"):
                ls.append(o)
                out.append((k, x))
            elif k == "1":
                out.append(("1", shape_of(x, ls)))
            else:
                out.append("U")
        return tuple(out)
    if isinstance(v, SliceIt):
        ls.append(v.i)
        ls.append(v.end)
        return ("it", shape_of(v.base, ls), v.mut)
    if isinstance(v, Seq):
        return ("seq",) + tuple(shape_of(x, ls) for x in v.items)
    if isinstance(v, Opq):
        return ("o", v.t, shape_of(v.d, ls) if isinstance(v.d, (L, Agg, Ptr, Key, Val, Seq)) else
                (tuple(shape_of(x, ls) for x in v.d) if isinstance(v.d, tuple) else repr(v.d)))
    if isinstance(v, FnV):
        return ("f", v.c.get("key") or v.c["path"])
    return repr(v)


def reshape(v, it):
    """The value with its numbers replaced, in the order shape_of lists them."""
    if isinstance(v, L):
        return next(it)
    if isinstance(v, Agg):
        return Agg(v.v, tuple(reshape(x, it) for x in v.f))
    if isinstance(v, Ptr):
        p = tuple(x if isinstance(x, int) or x[0] != "i" else ("i", next(it)) for x in v.p)
        return Ptr(v.c, p, next(it) if v.m is not None else None)
    if isinstance(v, Cond):
        if v.k in ("T", "F"):
            return v
        if v.k in ("and", "or"):
            a = reshape(v.a, it)
            return Cond(v.k, a, reshape(v.b, it))
        return Cond(v.k, next(it))
    if isinstance(v, Key):
        if v.k == "N":
            return v
        if v.k == "G":
            return Key("G", next(it))
        return Key("S", v.a, next(it))
    if isinstance(v, Val):
        return Val("G", next(it)) if v.k == "G" else v
    if isinstance(v, Handle):
        return Handle((v.n[0], v.n[1], next(it))) if isinstance(v.n, tuple) else v
    if isinstance(v, Arr):
        segs = []
        for n, k, x, o in v.s:
            n = next(it)
            if k == "G":
                x = next(it)
            elif k in ("S", "C"):
                o = next(it)
            elif k == "1":
                x = reshape(x, it)
            segs.append((n, k, x, o))
        return Arr(segs, v.cap, v.e, v.ety)
    if isinstance(v, SliceIt):
        i = next(it)
        e = next(it)
        return SliceIt(reshape(v.base, it), i, e, v.mut)
    if isinstance(v, Seq):
        return Seq(tuple(reshape(x, it) for x in v.items), v.cap)
    if isinstance(v, Opq):
        if isinstance(v.d, (L, Agg, Ptr, Key, Val, Seq)):
            return Opq(v.t, reshape(v.d, it))
        if isinstance(v.d, tuple):
            return Opq(v.t, tuple(reshape(x, it) for x in v.d))
        return v
    return v


def renumber(st, c, v, it):
    w = reshape(v, it)
    if w == v and type(v) is type(w):
        return
    st.cells[c] = w
    n = st.nodes.get(c)
    if n is not None and n.clean is v:
        st.nodes[c] = n.but(clean=w)


def rename_state(st, m):
    """Rename symbols in the constraints of a state (its cells are not used afterwards)."""
    from .lin import Sys
    s = st.copy()
    f = lambda x: m[x].t[0][0] if x in m else x
    n = Sys()
    n.dead = st.sys.dead
    for k, v in st.sys.sub.items():
        n.sub[f(k)] = v.rename(f)
    for t, c in st.sys.cons.items():
        e = L(t, c).rename(f)
        n.cons[e.t] = e.c
    s.sys = n
    s.pend = [(tuple(p.rename(f) for p in ps), c.rename(f)) for ps, c in st.pend]
    s._satkey = None
    return s


def short(key):
    import re
    k = re.sub(r"<[^<>]*>$", "", key)
    k = k.replace("crate::", "").replace("<K, V, C>", "").replace("::<>", "")
    return k


def rel(sp):
    return sp.replace("/repo/", "") if isinstance(sp, str) else str(sp)


def remap(v, f):
    """The value with its numbers mapped."""
    ls = []
    shape_of(v, ls)
    ns = [f(e) for e in ls]
    if all(a is b for a, b in zip(ls, ns)):
        return v
    return reshape(v, iter(ns))
