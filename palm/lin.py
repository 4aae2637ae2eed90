"""Linear integer constraints: expressions, systems, entailment, projection and join.

The numeric part of the abstract domain. Systems are conjunctions of linear
inequalities over symbols; equalities are kept solved as a substitution.
Entailment is decided by Fourier-Motzkin elimination with integer tightening.
"""
import ctypes
import struct
from fractions import Fraction
from math import gcd


class L:
    """A linear expression: sum of coef * symbol + const."""
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        self.t = t      # sorted tuple of (sym, coef)
        self.c = c
        self._h = None

    @staticmethod
    def sym(s):
        return L(((s, 1),), 0)

    @staticmethod
    def of(x):
        return x if isinstance(x, L) else L((), x)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.c))
        return self._h

    def __eq__(self, o):
        return isinstance(o, L) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def lin(self, o, k):
        """self + k * o"""
        if not isinstance(o, L):
            return L(self.t, self.c + k * o)
        if not o.t:
            return L(self.t, self.c + k * o.c)
        d = dict(self.t)
        for s, a in o.t:
            v = d.get(s, 0) + k * a
            if v:
                d[s] = v
            else:
                d.pop(s, None)
        return L(tuple(sorted(d.items())), self.c + k * o.c)

    def __add__(self, o):
        return self.lin(o, 1)

    def __sub__(self, o):
        return self.lin(o, -1)

    def __neg__(self):
        return L(tuple((s, -a) for s, a in self.t), -self.c)

    def scale(self, k):
        if k == 0:
            return L()
        return L(tuple((s, a * k) for s, a in self.t), self.c * k)

    def const(self):
        return self.c if not self.t else None

    def subst(self, m):
        hit = False
        for s, _ in self.t:
            if s in m:
                hit = True
                break
        if not hit:
            return self
        out = L((), self.c)
        rest = []
        for s, a in self.t:
            if s in m:
                out = out.lin(m[s], a)
            else:
                rest.append((s, a))
        return out.lin(L(tuple(rest), 0), 1)

    def rename(self, f):
        d = {}
        for s, a in self.t:
            n = f(s)
            d[n] = d.get(n, 0) + a
        return L(tuple(sorted((s, a) for s, a in d.items() if a)), self.c)

    def syms(self):
        return [s for s, _ in self.t]

    def __repr__(self):
        out = []
        for s, a in self.t:
            out.append(("+" if a > 0 else "-") + ("" if abs(a) == 1 else str(abs(a)) + "*") + str(s))
        if self.c or not out:
            out.append("%+d" % self.c)
        r = "".join(out)
        return r[1:] if r.startswith("+") else r


ZERO = L()


def _norm(t, c):
    """t + c >= 0 tightened by the gcd of the coefficients."""
    g = 0
    for _, a in t:
        g = gcd(g, a)
        if g == 1:
            return t, c
    if g > 1:
        return tuple((s, a // g) for s, a in t), c // g
    return t, c


class Unsat(Exception):
    pass


LIMIT = 3000

_native = [None, False]
_has, _npt = ctypes.c_int(0), ctypes.c_int(0)
_pt = (ctypes.c_int64 * 4096)()


def _pt_grow(n):
    global _pt
    _pt = (ctypes.c_int64 * n)()


_last = [0]


def native():
    """The compiled elimination (native/fm.cpp), or None."""
    if not _native[1]:
        _native[1] = True
        try:
            from .build import native_lib
            lib = ctypes.CDLL(native_lib())
            lib.fm2.restype = ctypes.c_int
            lib.fm2.argtypes = [ctypes.c_char_p, ctypes.c_int64, ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_int64),
                                ctypes.POINTER(ctypes.c_int), ctypes.POINTER(ctypes.c_int)]
            _native[0] = lib.fm2
        except Exception:
            _native[0] = None
    return _native[0]


_gid = {}
_names = []
_recs = {}


def _rec(t, c):
    """One constraint as the compiled core reads it."""
    w = [len(t), c >> 64, (c & 0xFFFFFFFFFFFFFFFF) - ((c & (1 << 63)) << 1)]
    for s, a in t:
        k = _gid.get(s)
        if k is None:
            k = _gid[s] = len(_names)
            _names.append(s)
        w.append(k)
        w.append(a)
    r = struct.pack("%dq" % len(w), *w)
    if len(_recs) > 300000:
        _recs.clear()
    _recs[t, c] = r
    return r


def _pack(cons):
    get = _recs.get
    return b"".join([get(tc) or _rec(*tc) for tc in cons.items()])


def _solve(cons, limit=LIMIT, query=None, blob=None):
    """(certainly unsatisfiable, an integer point or None). With a query, cons and it, as far as they are connected."""
    f = native()
    if f is None:
        if query:
            cons = _component(cons, query)
        return _fm_unsat(cons, limit), None
    w = blob if blob is not None else _pack(cons)
    if query:
        w += _recs.get(query) or _rec(*query)
    n = len(w) // 8
    if len(_pt) < 2 * n + 2:
        _pt_grow(2 * n + 64)
    has, npt = _has, _npt
    r = f(w, n, 1 if query else 0, limit, _pt, npt, has)
    if r:
        return True, None
    _last[0] = has.value
    if has.value == 1:
        k = npt.value
        v = _pt[:2 * k]
        return False, {_names[v[2 * i]]: v[2 * i + 1] for i in range(k)}
    return False, None


def _component(cons, query):
    index = {}
    for t in cons:
        for s, _ in t:
            index.setdefault(s, []).append(t)
    seen = {s for s, _ in query[0]}
    todo = list(seen)
    out = {}
    while todo:
        s = todo.pop()
        for t in index.get(s, ()):
            if t not in out:
                out[t] = cons[t]
                for x, _ in t:
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
    o = out.get(query[0])
    if o is None or query[1] < o:
        out[query[0]] = query[1]
    return out


def _fm_unsat(cons, limit=LIMIT):
    """cons: dict t -> c (t + c >= 0). True when certainly unsatisfiable over the integers."""
    cons = dict(cons)
    while True:
        # equalities first: t and -t both tight
        occ = {}
        for t in cons:
            for s, a in t:
                o = occ.get(s)
                if o is None:
                    o = occ[s] = [0, 0, False]
                if a > 0:
                    o[0] += 1
                else:
                    o[1] += 1
                if a > 1 or a < -1:
                    o[2] = True
        if not occ:
            return False
        best, bs = None, None
        for s, (p, n, big) in occ.items():
            cost = p * n - p - n + (1000 if big else 0)
            if best is None or cost < best:
                best, bs = cost, s
                if p == 0 or n == 0:
                    break
        pos, neg, rest = [], [], {}
        for t, c in cons.items():
            a = 0
            for s, k in t:
                if s == bs:
                    a = k
                    break
            if a > 0:
                pos.append((t, c, a))
            elif a < 0:
                neg.append((t, c, -a))
            else:
                rest[t] = c
        for tp, cp, ap in pos:
            for tn, cn, an in neg:
                g = gcd(ap, an)
                kp, kn = an // g, ap // g
                d = {}
                for s, a in tp:
                    d[s] = a * kp
                for s, a in tn:
                    v = d.get(s, 0) + a * kn
                    if v:
                        d[s] = v
                    else:
                        d.pop(s, None)
                c = cp * kp + cn * kn
                if not d:
                    if c < 0:
                        return True
                    continue
                t, c = _norm(tuple(sorted(d.items())), c)
                o = rest.get(t)
                if o is None or c < o:
                    rest[t] = c
                    nt = tuple((s, -a) for s, a in t)
                    o = rest.get(nt)
                    if o is not None and o + c < 0:
                        return True
        cons = rest
        if len(cons) > limit:
            return False


POINTS = 16


class Sys:
    """A conjunction. `pts` are integer points satisfying all of it, each covering every symbol of `cons`."""
    __slots__ = ("sub", "cons", "dead", "_memo", "pts", "_blob")

    def __init__(self):
        self.sub = {}      # sym -> L, fully reduced
        self.cons = {}     # t -> c
        self._blob = None  # cons as the compiled core reads it
        self.dead = False
        self._memo = {}
        self.pts = ()

    def _narrow(self, e, tight):
        """Keep the points at which e >= 0 (e == 0 when tight), giving symbols they lack a value."""
        if not self.pts:
            return
        out = []
        for p in self.pts:
            v = e.c
            lack = None
            for s, a in e.t:
                x = p.get(s)
                if x is None:
                    if lack is None:
                        lack = []
                    lack.append((s, a))
                else:
                    v += a * x
            if lack is not None:
                p = dict(p)
                one = None
                for s, a in lack:
                    if one is None and (a == 1 or a == -1):
                        one = (s, a)
                    else:
                        p[s] = 0
                if one is None:
                    s, a = lack[0]
                    if tight and v % a:
                        continue
                    p[s] = -v // a if tight else (-v // a + (1 if a > 0 else -1))
                    v = v + a * p[s]
                else:
                    p[one[0]] = -v * one[1]
                    v = 0
            if v == 0 or (v > 0 and not tight):
                out.append(p)
        self.pts = tuple(out)

    def copy(self):
        s = Sys()
        s.sub = dict(self.sub)
        s.cons = dict(self.cons)
        s._blob = self._blob
        s.dead = self.dead
        s._memo = dict(self._memo) if len(self._memo) < 400 else {}
        s.pts = self.pts
        return s

    def red(self, e):
        return e.subst(self.sub)

    def _changed(self):
        # facts only grow: what was entailed stays entailed
        self._blob = None
        self._memo = {k: v for k, v in self._memo.items() if v}

    def ge(self, e):
        """Assert e >= 0."""
        e = self.red(e)
        if not e.t:
            if e.c < 0:
                self.dead = True
            return
        t, c = _norm(e.t, e.c)
        o = self.cons.get(t)
        if o is not None and o <= c:
            return
        self._narrow(L(t, c), False)
        nt = tuple((s, -a) for s, a in t)
        n = self.cons.get(nt)
        if n is not None:
            if n + c < 0:
                self.dead = True
                return
            if n + c == 0:
                del self.cons[nt]
                self.cons.pop(t, None)
                self._blob = None
                self.eq(L(t, c))
                return
        self.cons[t] = c
        self._changed()

    def eq(self, e):
        e = self.red(e)
        if not e.t:
            if e.c != 0:
                self.dead = True
            return
        g = 0
        for _, a in e.t:
            g = gcd(g, a)
        if e.c % g:
            self.dead = True
            return
        if g > 1:
            e = L(tuple((s, a // g) for s, a in e.t), e.c // g)
        self._narrow(e, True)
        # solve for a symbol with a unit coefficient, the youngest one
        cand = None
        for s, a in e.t:
            if a in (1, -1):
                if cand is None or age(s) > age(cand[0]):
                    cand = (s, a)
        if cand is None:
            self.cons[e.t] = min(self.cons.get(e.t, e.c), e.c)
            ne = -e
            self.cons[ne.t] = min(self.cons.get(ne.t, ne.c), ne.c)
            self._changed()
            return
        s, a = cand
        rest = L(tuple(x for x in e.t if x[0] != s), e.c)
        val = rest.scale(-a)
        m = {s: val}
        for k in list(self.sub):
            v = self.sub[k]
            nv = v.subst(m)
            if nv is not v:
                self.sub[k] = nv
        self.sub[s] = val
        redo = []
        for t in list(self.cons):
            for x, _ in t:
                if x == s:
                    redo.append((t, self.cons.pop(t)))
                    break
        self._memo = {}
        self._blob = None
        for t, c in redo:
            self.ge(L(t, c).subst(m))

    def entails_ge(self, e):
        if self.dead:
            return True
        e = self.red(e)
        if not e.t:
            return e.c >= 0
        t, c = _norm(e.t, e.c)
        o = self.cons.get(t)
        if o is not None and o <= c:
            return True
        r = self._memo.get((t, c))
        if r is not None:
            return r
        for p in self.pts:
            v = c
            for s, a in t:
                x = p.get(s)
                if x is None:
                    break
                v += a * x
            else:
                if v < 0:
                    return False
        neg = L(tuple((s, -a) for s, a in t), -c - 1)
        nt, nc = _norm(neg.t, neg.c)
        if o is not None and o + nc < 0:
            r = True
        else:
            if self._blob is None:
                self._blob = _pack(self.cons)
            r, pt = _solve(self.cons, LIMIT, (nt, nc), self._blob)
            if pt is not None:
                self._keep(pt)
        self._memo[(t, c)] = r
        return r

    def _keep(self, pt):
        """Remember a point of a component; the rest of it comes from another point."""
        if self.pts:
            q = dict(self.pts[0])
            q.update(pt)
        else:
            rest = {t: c for t, c in self.cons.items() if not any(s in pt for s, _ in t)}
            q = pt
            if rest:
                u, o = _solve(rest)
                if o is None:
                    return
                q = dict(o)
                q.update(pt)
        self.pts = (q,) + self.pts[:POINTS - 1]

    def entails_eq(self, e):
        e = self.red(e)
        if not e.t:
            return e.c == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def witness(self):
        """Whether there is an integer point: True, False, or None when none was found."""
        if self.dead:
            return False
        if self.pts:
            return True
        u, pt = _solve(self.cons, -LIMIT)
        if u:
            self.dead = True
            return False
        if pt is not None:
            self.pts = (pt,)
            return True
        return None

    def feasible(self):
        if self.dead:
            return False
        if self.pts:
            return True
        u, pt = _solve(self.cons)
        if u:
            self.dead = True
            return False
        if pt is not None:
            self.pts = (pt,)
        return True

    def eliminate(self, sym, limit=30):
        """Forget a symbol, keeping what follows about the others (none if that is too much)."""
        pos, neg = [], []
        for t, c in self.cons.items():
            for s, a in t:
                if s == sym:
                    (pos if a > 0 else neg).append((t, c, abs(a)))
                    break
        if len(pos) * len(neg) > limit:
            return False
        for t, _, _ in pos + neg:
            del self.cons[t]
        for tp, cp, ap in pos:
            for tn, cn, an in neg:
                g = gcd(ap, an)
                e = L(tp, cp).scale(an // g) + L(tn, cn).scale(ap // g)
                self.ge(e)
        self._memo = {}
        self._blob = None
        return True

    def facts(self):
        """Everything asserted, as expressions >= 0."""
        out = [L(t, c) for t, c in self.cons.items()]
        for s, e in self.sub.items():
            d = L.sym(s) - e
            out.append(d)
            out.append(-d)
        return out

    def cmp(self, a, b):
        """'<', '=', '>' when known, '<=', '>=', or None."""
        d = self.red(L.of(a) - L.of(b))
        if not d.t:
            return "<" if d.c < 0 else ("=" if d.c == 0 else ">")
        le = self.entails_ge(-d)
        if le:
            if self.entails_ge(-d - 1):
                return "<"
            if self.entails_ge(d):
                return "="
            return "<="
        if self.entails_ge(d):
            if self.entails_ge(d - 1):
                return ">"
            return ">="
        return None

    def project(self, keep, limit=600):
        """The consequences over the symbols in `keep`, as (equalities, inequalities)."""
        keep = set(keep)
        eqs = []
        sub = dict(self.sub)
        cons = dict(self.cons)
        # equalities: sub gives sym = expr; eliminate unwanted symbols from them
        rows = [L.sym(s) - e for s, e in sub.items()]
        # Gaussian elimination of unwanted symbols
        out_rows = []
        pending = rows
        m = {}
        while pending:
            r = pending.pop()
            r = r.subst(m)
            if not r.t:
                continue
            piv = None
            for s, a in r.t:
                if s not in keep and a in (1, -1):
                    piv = (s, a)
                    break
            if piv is None:
                if all(s in keep for s, _ in r.t):
                    out_rows.append(r)
                continue
            s, a = piv
            val = L(tuple(x for x in r.t if x[0] != s), r.c).scale(-a)
            mm = {s: val}
            for k in list(m):
                m[k] = m[k].subst(mm)
            m[s] = val
            pending = [x.subst(mm) for x in pending]
            out_rows = [x.subst(mm) for x in out_rows]
        ne = {}
        for t, c in cons.items():
            e = L(t, c).subst(m)
            if e.t:
                t2, c2 = _norm(e.t, e.c)
                if t2 not in ne or c2 < ne[t2]:
                    ne[t2] = c2
        cons = ne
        for r in out_rows:
            if r.t:
                eqs.append(r)
        while True:
            occ = {}
            for t in cons:
                for s, a in t:
                    if s not in keep:
                        o = occ.setdefault(s, [0, 0])
                        o[0 if a > 0 else 1] += 1
            if not occ:
                break
            bs = min(occ, key=lambda s: occ[s][0] * occ[s][1] - occ[s][0] - occ[s][1])
            pos, neg, rest = [], [], {}
            for t, c in cons.items():
                a = 0
                for s, k in t:
                    if s == bs:
                        a = k
                        break
                if a > 0:
                    pos.append((t, c, a))
                elif a < 0:
                    neg.append((t, c, -a))
                else:
                    rest[t] = c
            if len(pos) * len(neg) <= limit:
                for tp, cp, ap in pos:
                    for tn, cn, an in neg:
                        e = L(tp, cp).scale(an) + L(tn, cn).scale(ap)
                        if not e.t:
                            continue
                        t, c = _norm(e.t, e.c)
                        if len(t) > 4:
                            continue
                        o = rest.get(t)
                        if o is None or c < o:
                            rest[t] = c
            cons = rest
        return eqs, [L(t, c) for t, c in cons.items()]


_ages = {}


def age(s):
    """Symbols made later are solved for first."""
    a = _ages.get(s)
    if a is None:
        i = len(s)
        while i > 0 and s[i - 1].isdigit():
            i -= 1
        a = int(s[i:]) if i < len(s) else 0
        _ages[s] = a
    return a


def affine_join(eqs_a, eqs_b, syms):
    """Equalities holding in both affine spaces (Karr's join)."""
    syms = list(syms)
    ix = {s: i for i, s in enumerate(syms)}
    n = len(syms)

    def solve(eqs):
        rows = []
        for e in eqs:
            r = [Fraction(0)] * (n + 1)
            ok = True
            for s, a in e.t:
                if s not in ix:
                    ok = False
                    break
                r[ix[s]] += a
            if not ok:
                continue
            r[n] = Fraction(-e.c)
            rows.append(r)
        piv = []
        rr = []
        for r in rows:
            r = r[:]
            for p, q in zip(piv, rr):
                if r[p]:
                    f = r[p]
                    r = [x - f * y for x, y in zip(r, q)]
            p = next((i for i in range(n) if r[i]), None)
            if p is None:
                continue
            f = r[p]
            r = [x / f for x in r]
            for i, q in enumerate(rr):
                if q[p]:
                    g = q[p]
                    rr[i] = [x - g * y for x, y in zip(q, r)]
            piv.append(p)
            rr.append(r)
        point = [Fraction(0)] * n
        for p, r in zip(piv, rr):
            point[p] = r[n]
        dirs = []
        free = [i for i in range(n) if i not in piv]
        for f in free:
            d = [Fraction(0)] * n
            d[f] = Fraction(1)
            for p, r in zip(piv, rr):
                if r[f]:
                    d[p] = -r[f]
            dirs.append(d)
        return point, dirs

    pa, da = solve(eqs_a)
    pb, db = solve(eqs_b)
    span = da + db + [[x - y for x, y in zip(pb, pa)]]
    # reduce span
    basis, piv = [], []
    for v in span:
        v = v[:]
        for p, b in zip(piv, basis):
            if v[p]:
                f = v[p]
                v = [x - f * y for x, y in zip(v, b)]
        p = next((i for i in range(n) if v[i]), None)
        if p is None:
            continue
        f = v[p]
        v = [x / f for x in v]
        for i, b in enumerate(basis):
            if b[p]:
                g = b[p]
                basis[i] = [x - g * y for x, y in zip(b, v)]
        basis.append(v)
        piv.append(p)
    # normals: null space of the basis
    out = []
    free = [i for i in range(n) if i not in piv]
    for f in free:
        nv = [Fraction(0)] * n
        nv[f] = Fraction(1)
        for p, b in zip(piv, basis):
            nv[p] = -b[f]
        k = sum(x * y for x, y in zip(nv, pa))
        den = 1
        for x in nv + [k]:
            den = den * x.denominator // gcd(den, x.denominator)
        t = tuple(sorted((syms[i], int(nv[i] * den)) for i in range(n) if nv[i]))
        if t:
            out.append(L(t, -int(k * den)))
    return out
