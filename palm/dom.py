"""The abstract domain: values, memory, trees of symbolic width, ordered key positions.

A tree is described by *origins*, one per node looked at so far: a node at a
given level with a symbolic number of slots, holding the window [s, e) of the
entries G[0], G[1], ... in key order. Children are described when they are
first reached. A key that is not one of the entries is known by its rank: the
number of entries below it (P) and not above it (Q), and its ranks among the
separators of each branch looked at.
"""
from .lin import L, Sys, age as lin_age

ONE = L((), 1)
ZERO = L((), 0)
WRAP = 1 << 64


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """The path cannot be followed any further (an issue was recorded)."""


# ---------------------------------------------------------------- values

class Agg:
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v, self.f = v, f

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.v, self.f))

    def __repr__(self):
        return "#%s%s" % (self.v, self.f)


class Ptr:
    __slots__ = ("c", "p", "m")

    def __init__(self, c, p=(), m=None):
        self.c, self.p, self.m = c, p, m

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.c == o.c and self.p == o.p and self.m == o.m

    def __hash__(self):
        return hash((self.c, self.p))

    def __repr__(self):
        return "&%s%s%s" % (self.c, "".join(".%s" % (x if isinstance(x, int) else "[%s]" % x[1]) for x in self.p),
                            "" if self.m is None else ":%s" % self.m)


NULL = Ptr(None)


class Handle:
    """What a pointer kind holds: the identity of a node allocation."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Handle) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return "H(%s)" % (self.n,)


class Key:
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a, b=None):
        self.k, self.a, self.b = k, a, b

    def __eq__(self, o):
        return isinstance(o, Key) and (self.k, self.a, self.b) == (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, self.a, self.b))

    def __repr__(self):
        return "K%s(%s%s)" % (self.k, self.a, "" if self.b is None else ",%s" % self.b)


class Val:
    __slots__ = ("k", "a")

    def __init__(self, k, a):
        self.k, self.a = k, a

    def __eq__(self, o):
        return isinstance(o, Val) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return "V%s(%s)" % (self.k, self.a)


class Arr:
    """A node's array: segments up to the capacity. ety: element type id; e: 'K', 'V' or 'N'."""
    __slots__ = ("s", "cap", "e", "ety")

    def __init__(self, s, cap, e, ety):
        self.s, self.cap, self.e, self.ety = tuple(s), cap, e, ety

    def __eq__(self, o):
        return isinstance(o, Arr) and self.s == o.s and self.e == o.e

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return "[" + " ".join("%s%s*%s" % (k, "" if x is None else "(%s%s)" % (x, "" if o is None else "+%s" % o), n)
                              for n, k, x, o in self.s) + "]"


class SliceIt:
    __slots__ = ("base", "i", "end", "mut")

    def __init__(self, base, i, end, mut=False):
        self.base, self.i, self.end, self.mut = base, i, end, mut

    def __repr__(self):
        return "it(%s %s..%s)" % (self.base, self.i, self.end)


class Seq:
    """A vector with known items (ArrayVec, Vec)."""
    __slots__ = ("items", "cap")

    def __init__(self, items=(), cap=None):
        self.items, self.cap = tuple(items), cap

    def __repr__(self):
        return "seq%s" % (self.items,)


class Opq:
    __slots__ = ("t", "d")

    def __init__(self, t, d=None):
        self.t, self.d = t, d

    def __repr__(self):
        return "<%s %s>" % (self.t, "" if self.d is None else self.d)


class FnV:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "fn(%s)" % self.c.get("path")


class Cond:
    """A truth value: ('ge', L) | ('eq', L) | ('and'|'or', Cond, Cond) | ('T',) | ('F',)."""
    __slots__ = ("k", "a", "b")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def neg(self):
        k = self.k
        if k == "ge":
            return ge(-self.a - 1)
        if k == "eq":
            return Cond("ne", self.a)
        if k == "ne":
            return Cond("eq", self.a)
        if k == "and":
            return Cond("or", self.a.neg(), self.b.neg())
        if k == "or":
            return Cond("and", self.a.neg(), self.b.neg())
        return FALSE if k == "T" else TRUE

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.k, self.a, self.b) == (o.k, o.a, o.b)

    def __hash__(self):
        return hash((self.k, self.a, self.b))

    def __repr__(self):
        if self.k in ("T", "F"):
            return self.k
        if self.k in ("and", "or"):
            return "(%s %s %s)" % (self.a, self.k, self.b)
        return "{%s %s 0}" % (self.a, {"ge": ">=", "eq": "==", "ne": "!="}[self.k])


TRUE, FALSE = Cond("T"), Cond("F")


def ge(e):
    if not e.t:
        return TRUE if e.c >= 0 else FALSE
    return Cond("ge", e)


def eq(e):
    if not e.t:
        return TRUE if e.c == 0 else FALSE
    return Cond("eq", e)


def cand(a, b):
    if a.k == "F" or b.k == "F":
        return FALSE
    if a.k == "T":
        return b
    if b.k == "T":
        return a
    return Cond("and", a, b)


def cor(a, b):
    if a.k == "T" or b.k == "T":
        return TRUE
    if a.k == "F":
        return b
    if b.k == "F":
        return a
    return Cond("or", a, b)


class _U:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


UNINIT = _U("uninit")
MOVED = _U("moved")
UNIT = Agg(0, ())


# ---------------------------------------------------------------- origins

FOLDED = 1000       # origins from here on summarise nodes the analysed code has built


class Origin:
    """The initial state of one node."""
    __slots__ = ("id", "lv", "s", "e", "n", "parent", "kids", "cuts", "ranks", "exact")

    def __init__(self, id, lv, s, e, n, parent=None):
        self.id, self.lv, self.s, self.e, self.n, self.parent = id, lv, s, e, n, parent
        self.kids = ()      # ((j, oid), ...)
        self.cuts = ()      # ((i, position), ...)
        self.ranks = {}     # key name -> (p, q)
        self.exact = False  # every separator is the last key of its child

    def copy(self):
        o = Origin(self.id, self.lv, self.s, self.e, self.n, self.parent)
        o.exact = self.exact
        o.kids, o.cuts, o.ranks = self.kids, self.cuts, self.ranks
        return o


class NodeInfo:
    __slots__ = ("oid", "lv", "excl", "freed", "clean")

    def __init__(self, oid, lv, excl, clean=None, freed=False):
        self.oid, self.lv, self.excl, self.clean, self.freed = oid, lv, excl, clean, freed

    def but(self, **kw):
        n = NodeInfo(self.oid, self.lv, self.excl, self.clean, self.freed)
        for k, v in kw.items():
            setattr(n, k, v)
        return n


_ctr = [0]


def fresh(base):
    _ctr[0] += 1
    return L.sym("%s_%d" % (base, _ctr[0]))


BC, LC = L.sym("BC"), L.sym("LC")


class State:
    def __init__(self):
        self.sys = Sys()
        self.pend = []
        self.cells = {}
        self.orgs = {}
        self.nodes = {}
        self.mat = {}        # origin -> cell of the node
        self.keys = {}       # name -> (P, Q)
        self.order = {}      # (name, name) -> True when strictly below
        self.nid = 1
        self.taint = False
        self.log = ()
        self.trail = ()
        self._satkey = None
        self.hook = {}
        self.unwinding = False
        self.loose = False   # nodes may be empty and keys out of order: nothing but the storage itself is known
        self.covered = False

    def copy(self):
        s = State.__new__(State)
        s.sys = self.sys.copy()
        s.pend = list(self.pend)
        s.cells = dict(self.cells)
        s.orgs = dict(self.orgs)
        s.nodes = dict(self.nodes)
        s.mat = dict(self.mat)
        s.keys = self.keys
        s.order = self.order
        s.nid = self.nid
        s.taint = self.taint
        s.log = self.log
        s.trail = self.trail
        s._satkey = self._satkey
        s.hook = self.hook
        s.unwinding = self.unwinding
        s.loose = self.loose
        s.covered = False
        return s

    # -------------------------------------------------- constraints
    def ge(self, e):
        self.sys.ge(e)
        self._satkey = None

    def eq(self, e):
        self.sys.eq(e)
        self._satkey = None

    def imply(self, prem, concl, *more):
        """prem >= 0 (and each of `more` >= 0) implies concl >= 0."""
        prems = []
        for p in (prem,) + more:
            p = self.sys.red(p)
            if not p.t:
                if p.c < 0:
                    return
                continue
            prems.append(p)
        concl = self.sys.red(concl)
        if not concl.t and concl.c >= 0:
            return
        if not prems:
            self.ge(concl)
            return
        self.pend.append((tuple(prems), concl))
        self._satkey = None

    def saturate(self):
        if self._satkey is not None:
            return
        sys = self.sys
        work = True
        rounds = 0
        while work and not sys.dead and rounds < 6:
            work = False
            rounds += 1
            out = []
            for prems, concl in self.pend:
                if sys.dead:
                    break
                if sys.entails_ge(concl):
                    continue
                left = []
                gone = False
                for p in prems:
                    if sys.entails_ge(p):
                        continue
                    if sys.entails_ge(-p - 1):
                        gone = True
                        break
                    left.append(p)
                if gone:
                    continue
                if not left:
                    sys.ge(concl)
                    work = True
                    continue
                if len(left) == 1 and sys.entails_ge(-concl - 1):
                    sys.ge(-left[0] - 1)
                    work = True
                    continue
                out.append((tuple(left), concl))
            self.pend = out
        self._satkey = True

    def q(self, e):
        """Is e >= 0 certain?"""
        if self.sys.entails_ge(e):
            return True
        if self._satkey is None and self.pend:
            self.saturate()
            return self.sys.entails_ge(e)
        return False

    def qeq(self, e):
        e = self.sys.red(e)
        if not e.t:
            return e.c == 0
        return self.q(e) and self.q(-e)

    def dead(self):
        return self.sys.dead

    def alive(self):
        self.saturate()
        return self.sys.feasible()

    def _related(self):
        return self.pend

    def feasible(self, depth=12):
        """Feasible under some resolution of every pending implication."""
        self.saturate()
        if not self.sys.feasible():
            return False
        if not self.pend or depth == 0:
            return True
        prem = self.pend[0][0][0]
        a = self.copy()
        a.ge(-prem - 1)
        if a.feasible(depth - 1):
            return True
        b = self.copy()
        b.ge(prem)
        return b.feasible(depth - 1)

    def real(self, depth=12):
        """Does some assignment of numbers make this state? True, False, or None when that is not settled."""
        self.saturate()
        r = self.sys.witness()
        if r is False or not self.pend:
            return r
        if depth == 0:
            return None
        prem = self.pend[0][0][0]
        a = self.copy()
        a.ge(-prem - 1)
        x = a.real(depth - 1)
        if x:
            return True
        b = self.copy()
        b.ge(prem)
        y = b.real(depth - 1)
        return y if y or x is not None else None

    def prove(self, e, depth=5):
        """Is e >= 0 certain, splitting on undecided implications?"""
        if self.q(e):
            return True
        if depth == 0 or not self.pend:
            return False
        # refute e <= -1
        s = self.copy()
        s.ge(-e - 1)
        return not s.feasible(depth)

    def prove_cond(self, c, depth=5):
        k = c.k
        if k == "T":
            return True
        if k == "F":
            return not self.feasible(depth)
        if k == "ge":
            return self.prove(c.a, depth)
        if k == "eq":
            return self.prove(c.a, depth) and self.prove(-c.a, depth)
        if k == "and":
            return self.prove_cond(c.a, depth) and self.prove_cond(c.b, depth)
        # or / ne: no state satisfies the negation
        for s in self.copy().where(c.neg()):
            if s.feasible(depth):
                return False
        return True

    def where(self, c):
        """The states in which c holds (this state may be consumed)."""
        k = c.k
        if k == "T":
            return [self]
        if k == "F":
            return []
        if k == "ge":
            if self.q(c.a):
                return [self]
            if self.q(-c.a - 1):
                return []
            s = self.copy()
            s.ge(c.a)
            return [] if s.dead() else [s]
        if k == "eq":
            e = self.sys.red(c.a)
            if not e.t:
                return [self] if e.c == 0 else []
            a, b = self.q(e), self.q(-e)
            if a and b:
                return [self]
            if self.q(e - 1) or self.q(-e - 1):
                return []
            s = self.copy()
            s.eq(e)
            if s.dead():
                return []
            s.saturate()
            return [] if s.dead() else [s]
        if k == "ne":
            return self.where(ge(c.a - 1)) + self.where(ge(-c.a - 1))
        if k == "and":
            out = []
            for s in self.where(c.a):
                out.extend(s.where(c.b))
            return out
        if k == "or":
            out = self.where(c.a)
            for s in self.where(c.a.neg()):
                out.extend(s.where(c.b))
            return out
        raise AssertionError(k)

    def branch(self, c):
        """(states where c holds, states where it does not)"""
        return self.where(c), self.where(c.neg())

    # -------------------------------------------------- tidying
    def used(self):
        """The symbols the state speaks of outside its constraints."""
        out = {"BC", "LC", "BC2", "LC2"}
        for v in self.cells.values():
            syms_of(v, out)
        for o in self.orgs.values():
            for e in (o.s, o.e, o.n):
                out.update(e.syms())
            for i, _ in o.kids:
                out.update(i.syms())
            for i, c in o.cuts:
                out.update(i.syms())
                out.update(c.syms())
            for p, q in o.ranks.values():
                out.update(p.syms())
                out.update(q.syms())
        for p, q in self.keys.values():
            out.update(p.syms())
            out.update(q.syms())
        for ps, c in self.pend:
            for p in ps:
                out.update(p.syms())
            out.update(c.syms())
        for x in self.log:
            syms_of(x, out)
        for x in self.hook.values():
            syms_of(x, out)
        return out

    def gc(self, keep=()):
        """Forget symbols nothing refers to any more."""
        used = self.used()
        used.update(keep)
        sys = self.sys
        for s in [s for s in sys.sub if s not in used]:
            del sys.sub[s]
        live = used
        for e in sys.sub.values():
            live.update(e.syms())
        dead = set()
        for t in sys.cons:
            for s, _ in t:
                if s not in live:
                    dead.add(s)
        for s in sorted(dead):
            sys.eliminate(s)

    # -------------------------------------------------- cells
    def new_cell(self, v=UNINIT):
        c = self.nid
        self.nid += 1
        self.cells[c] = v
        return c

    # -------------------------------------------------- origins
    def org(self, oid):
        return self.orgs[oid]

    def new_origin(self, lv, s, e, n, parent=None):
        oid = self.nid
        self.nid += 1
        o = Origin(oid, lv, s, e, n, parent)
        self.orgs[oid] = o
        if lv == 0:
            self.eq(e - s - n)
            self.ge(LC - n)
            o.cuts = ()
        else:
            self.ge(BC - n)
            self.ge(e - s if self.loose else e - s - n)
            o.cuts = ((ZERO, s), (n, e))
        self.ge(n if self.loose and lv else n - 1)
        if lv > 0:
            for k in self.keys:
                self.rank(oid, k)
        return oid

    def refold(self, oid, s, cuts):
        """A symbolic branch of which the children before the last cut are known to be in place."""
        o = self._upd(oid)
        o.s, o.e, o.n = s, fresh("ef"), fresh("wf")
        o.cuts = ((ZERO, o.s), (o.n, o.e)) + tuple(cuts)
        self.ge(BC - o.n)
        for i, c in ((ZERO, s),) + tuple(cuts):
            self.ge(o.n - i)
            self.ge(o.e - c - (o.n - i))
            self.ge(c - s - i)
            self.imply(i - o.n, c - o.e - (i - o.n))

    def _upd(self, oid):
        o = self.orgs[oid].copy()
        self.orgs[oid] = o
        return o

    def cut(self, oid, i):
        """Position where the content of child i of a branch starts."""
        o = self.orgs[oid]
        i = self.sys.red(L.of(i))
        for ix, c in o.cuts:
            if self.sys.red(ix) == i:
                return c
        for ix, c in o.cuts:
            if self.qeq(ix - i):
                return c
        c = fresh("c")
        for ix, d in o.cuts:
            # a child holds at least one entry
            if self.loose:
                self.imply(i - ix, c - d)
                self.imply(ix - i, d - c)
                continue
            self.imply(i - ix, (c - d) - (i - ix))
            self.imply(ix - i, (d - c) - (ix - i))
        o = self._upd(oid)
        o.cuts = o.cuts + ((i, c),)
        for k, (p, q) in o.ranks.items():
            self._rank_cut(oid, k, p, q, i, c)
        return c

    def _rank_cut(self, oid, k, p, q, i, c):
        P, Q = self.keys[k]
        s = self.orgs[oid].s
        if self.q(P - s) or self.q(i - 1):
            self.imply(p - i, P - c)
            self.imply(q - i, Q - c)
        else:
            self.imply(p - i, P - c, i - 1)
            if self.q(Q - s):
                self.imply(q - i, Q - c)
            else:
                self.imply(q - i, Q - c, i - 1)
        self.imply(i - 1 - p, c - Q)

    def rank(self, oid, k):
        """(p, q): how many separators of the branch are below, and not above, key k."""
        o = self.orgs[oid]
        r = o.ranks.get(k)
        if r is not None:
            return r
        P, Q = self.keys[k]
        p, q = fresh("p"), fresh("q")
        self.ge(p)
        self.ge(q - p)
        self.ge(p + 1 - q)
        self.ge(o.n - q)
        o = self._upd(oid)
        o.ranks = dict(o.ranks)
        o.ranks[k] = (p, q)
        for i, c in o.cuts:
            if not _zero(i):
                self._rank_cut(oid, k, p, q, i, c)
        if o.parent is not None:
            X, j = o.parent
            pX, qX = self.rank(X, k)
            self.imply(pX - j - 1, p - o.n)
            self.imply(qX - j - 1, q - o.n)
            self.imply(j - pX, o.n - 1 - p)
            self.imply(j - qX, o.n - 1 - q)
            self.imply(j - 1 - pX, -q)
        for a, b in self.order:
            if a == k and b in o.ranks:
                p2, q2 = o.ranks[b]
                self.ge(p2 - p)
                self.ge(q2 - q)
                # a < b: what is not above a is below b
                self.ge(p2 - q)
            if b == k and a in o.ranks:
                p2, q2 = o.ranks[a]
                self.ge(p - p2)
                self.ge(q - q2)
                self.ge(p - q2)
        return p, q

    def kid(self, oid, j):
        """The child of a branch at slot j, looking at it first if need be: [(state, child origin)]."""
        out = []
        st = self
        j = st.sys.red(L.of(j))
        for ix, k in st.orgs[oid].kids:
            if st.sys.red(ix) == j:
                return [(st, k)]
        for ix, k in st.orgs[oid].kids:
            if st.qeq(ix - j):
                return [(st, k)]
        for ix, k in st.orgs[oid].kids:
            if st.q(ix - j - 1) or st.q(j - ix - 1):
                continue
            for s in st.copy().where(eq(ix - j)):
                if s.alive():
                    out.append((s, k))
            rest = [s for s in st.where(Cond("ne", ix - j)) if s.alive()]
            for s in rest:
                out.extend(s.kid(oid, j))
            return out
        o = st.orgs[oid]
        s, e = st.cut(oid, j), st.cut(oid, j + 1)
        if o.lv == 1:
            n = e - s
        else:
            n = fresh("n")
        k = st.new_origin(o.lv - 1, s, e, n, (oid, j))
        st.orgs[k].exact = o.exact
        o = st._upd(oid)
        o.kids = o.kids + ((j, k),)
        if o.lv > 1:
            # keys already in play get their rank in the child when it is asked for
            pass
        return [(st, k)]

    def add_key(self, name, P=None, Q=None):
        P = P if P is not None else fresh("P")
        Q = Q if Q is not None else fresh("Q")
        self.keys = dict(self.keys)
        self.keys[name] = (P, Q)
        self.ge(P)
        self.ge(Q - P)
        self.ge(P + 1 - Q)
        for oid, o in list(self.orgs.items()):
            if o.lv > 0:
                self.rank(oid, name)
        return P, Q

    # -------------------------------------------------- key order
    def lt(self, a, b):
        """a < b as a Cond (None when the domain cannot tell)."""
        a, b = self.plain(a), self.plain(b)
        if a == b:
            return FALSE
        x, y = a.k, b.k
        if x == "G" and y == "G":
            return ge(b.a - a.a - 1)
        if x == "N" and y == "N":
            if a.a == b.a:
                return FALSE
            if (a.a, b.a) in self.order:
                return TRUE
            if (b.a, a.a) in self.order:
                return FALSE
            return None
        if x == "G" and y == "N":
            P, Q = self.keys[b.a]
            return ge(P - a.a - 1)
        if x == "N" and y == "G":
            P, Q = self.keys[a.a]
            return ge(b.a - Q)
        if x == "S" and y == "N":
            p, q = self.rank(a.a, b.a)
            return ge(p - a.b - 1)
        if x == "N" and y == "S":
            p, q = self.rank(b.a, a.a)
            return ge(b.b - q)
        if x == "S" and y == "S" and a.a == b.a:
            return ge(b.b - a.b - 1)
        if x == "S" and y == "G":
            c = self.cut(a.a, a.b + 1)
            # G[i] above the separator exactly when i >= cut
            return ge(b.a - c)
        if x == "G" and y == "S":
            c = self.cut(b.a, b.b + 1)
            # below it when it is not the child's last entry
            if self.prove(c - 2 - a.a):
                return TRUE
            if self.prove(a.a - c):
                return FALSE
            return None
        if x == "S" and y == "S":
            a2, b2 = self.sep_root(a), self.sep_root(b)
            if (a2, b2) != (a, b):
                return self.lt(a2, b2)
            ca, cb = self.cut(a.a, a.b + 1), self.cut(b.a, b.b + 1)
            if self.prove(cb - 1 - ca):
                return TRUE
            if self.prove(ca - cb - 1):
                return FALSE
            return None
        return None

    def le(self, a, b):
        """a <= b as a Cond (None when the domain cannot tell)."""
        if a == b:
            return TRUE
        c = self.lt(b, a)
        return None if c is None else c.neg()

    def plain(self, k):
        """A separator known to be an entry's key, as that."""
        if k.k == "S" and self.orgs[k.a].exact:
            return Key("G", self.sys.red(self.cut(k.a, k.b + 1) - 1))
        return k

    def sep_root(self, s):
        """The highest branch in which a separator appears: a branch's last one is its parent's."""
        while s.k == "S":
            o = self.orgs[s.a]
            if o.parent is None or not self.qeq(o.n - 1 - s.b):
                return s
            s = Key("S", o.parent[0], o.parent[1])
        return s

    def same_key(self, a, b):
        a, b = self.plain(a), self.plain(b)
        if a == b:
            return True
        if a.k != b.k:
            return False
        if a.k == "S":
            a, b = self.sep_root(a), self.sep_root(b)
            if a.a == b.a:
                return self.prove(a.b - b.b) and self.prove(b.b - a.b)
            return False
        if a.k == "G":
            return self.prove(a.a - b.a) and self.prove(b.a - a.a)
        return False


def syms_of(v, out):
    if isinstance(v, L):
        for s, _ in v.t:
            out.add(s)
    elif isinstance(v, Agg):
        for x in v.f:
            syms_of(x, out)
    elif isinstance(v, Ptr):
        for x in v.p:
            if not isinstance(x, int) and isinstance(x[1], L):
                syms_of(x[1], out)
        syms_of(v.m, out)
    elif isinstance(v, Key):
        if v.k != "N":
            syms_of(v.a, out)
            syms_of(v.b, out)
    elif isinstance(v, Val):
        syms_of(v.a, out)
    elif isinstance(v, Handle):
        syms_of(v.n, out)
    elif isinstance(v, Arr):
        for n, k, x, o in v.s:
            syms_of(n, out)
            syms_of(x, out)
            syms_of(o, out)
    elif isinstance(v, SliceIt):
        syms_of(v.base, out)
        syms_of(v.i, out)
        syms_of(v.end, out)
    elif isinstance(v, Seq):
        for x in v.items:
            syms_of(x, out)
    elif isinstance(v, Opq):
        syms_of(v.d, out)
    elif isinstance(v, Cond):
        syms_of(v.a, out)
        syms_of(v.b, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            syms_of(x, out)


def _zero(i):
    return not i.t and i.c == 0
