"""The dumped MIR: bodies, types, loops and liveness."""


class Program:
    def __init__(self, dump):
        self.types = dump["types"]
        self.bodies = dump["bodies"]
        self.roots = dump["roots"]
        self.impls = dump["impls"]
        self._info = {}

    def ty(self, t):
        return self.types[t]

    def info(self, key):
        i = self._info.get(key)
        if i is None:
            i = self._info[key] = Body(self, key, self.bodies[key])
        return i


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [b for _, b in t["vals"]] + [t["otherwise"]]
    if k in ("drop", "assert", "call"):
        return [t["t"]] if t.get("t") is not None else []
    return []


def both_ways(t):
    """Successors, the one taken when user code panics included."""
    u = t.get("u")
    return succs(t) + ([u] if isinstance(u, int) else [])


class Body:
    def __init__(self, prog, key, b):
        self.prog, self.key, self.b = prog, key, b
        self.blocks = b["blocks"]
        self.args = b["args"]
        self.locals = b["locals"]
        self._loops()
        self.live, self.borrowed = self._live(succs)
        self._unwinding = None

    @property
    def unwinding(self):
        """(live, borrowed) when calls may unwind."""
        if self._unwinding is None:
            self._unwinding = self._live(both_ways)
        return self._unwinding

    def _loops(self):
        """Loop heads: targets of back edges of a depth-first walk."""
        self.heads = set()
        color = {}
        order = []
        stack = [(0, iter(succs(self.blocks[0]["t"])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                c = color.get(m, 0)
                if c == 0:
                    color[m] = 1
                    stack.append((m, iter(succs(self.blocks[m]["t"]))))
                    break
                if c == 1:
                    self.heads.add(m)
            else:
                color[n] = 2
                order.append(n)
                stack.pop()
        self.reach = set(color)
        self.rpo = order[::-1]

    def order(self, succs):
        """Blocks reached, successors first."""
        seen, out, stack = {0}, [], [(0, iter(succs(self.blocks[0]["t"])))]
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succs(self.blocks[m]["t"]))))
                    break
            else:
                out.append(n)
                stack.pop()
        return out

    def _live(self, succs):
        """Live locals at the start of each block; a borrowed local is live until its storage dies."""
        use, kill = {}, {}
        borrowed = set()
        blocks = self.order(succs)

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1:]:
                if e["p"] == "index" and e["l"] not in d:
                    u.add(e["l"])

        def oper(o, u, d):
            if o["o"] in ("copy", "move"):
                place_use(o["p"], u, d)

        for bi in blocks:
            bl = self.blocks[bi]
            u, d = set(), set()
            for s in bl["s"]:
                k = s["s"]
                if k == "assign":
                    r = s["r"]
                    for f in ("o", "a", "b"):
                        if isinstance(r.get(f), dict) and "o" in r[f]:
                            oper(r[f], u, d)
                    for o in r.get("os", []):
                        oper(o, u, d)
                    if "p" in r:
                        place_use(r["p"], u, d)
                        if r["r"] in ("ref", "rawptr") and not any(e["p"] == "deref" for e in r["p"][1:]):
                            borrowed.add(r["p"][0])
                    if len(s["p"]) == 1:
                        d.add(s["p"][0])
                    else:
                        place_use(s["p"], u, d)
                elif k in ("live", "dead"):
                    d.add(s["l"])
                elif k == "setdiscr":
                    place_use(s["p"], u, d)
                elif k == "assume":
                    oper(s["o"], u, d)
                elif k == "copynonoverlapping":
                    for f in ("src", "dst", "count"):
                        if f in s:
                            oper(s[f], u, d)
            t = bl["t"]
            k = t["k"]
            if k == "switch" or k == "assert":
                oper(t["o"], u, d)
                for o in t.get("ops", []) or []:
                    oper(o, u, d)
            elif k == "drop":
                place_use(t["p"], u, d)
            elif k == "call":
                oper(t["f"], u, d)
                for o in t["args"]:
                    oper(o, u, d)
                if len(t["dest"]) == 1:
                    d.add(t["dest"][0])
                else:
                    place_use(t["dest"], u, d)
            elif k == "return":
                u.add(0)
            use[bi], kill[bi] = u, d
        live = {b: set(use[b]) for b in blocks}
        changed = True
        while changed:
            changed = False
            for b in blocks:
                out = set()
                for s in succs(self.blocks[b]["t"]):
                    out |= live[s]
                n = use[b] | (out - kill[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        return live, borrowed


def show_place(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        k = e["p"]
        if k == "deref":
            s = "(*%s)" % s
        elif k == "field":
            s += ".%d" % e["i"]
        elif k == "index":
            s += "[_%d]" % e["l"]
        elif k == "downcast":
            s += " as %s" % e["n"]
        else:
            s += "." + k
    return s


def show_const(c):
    if c["c"] == "int":
        return c["v"]
    if c["c"] == "fn":
        return (c.get("key") or c["path"]) + ("" if c["kind"] == "item" else "{%s}" % c["kind"])
    return "const" + str({k: v for k, v in c.items()})


def show_op(o):
    if o["o"] == "const":
        return show_const(o["c"])
    if o["o"] in ("copy", "move"):
        return ("" if o["o"] == "copy" else "move ") + show_place(o["p"])
    return str(o)


def show_rv(r, prog):
    k = r["r"]
    if k == "use":
        return show_op(r["o"])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], show_op(r["a"]), show_op(r["b"]))
    if k in ("ref", "rawptr"):
        return ("&mut " if r["mut"] else "&") + ("raw " if k == "rawptr" else "") + show_place(r["p"])
    if k == "agg":
        return "%s#%s{%s}" % (prog.types[r["t"]]["s"][:40], r["v"], ", ".join(show_op(o) for o in r["os"]))
    if k == "cast":
        return "%s as %s (%s)" % (show_op(r["o"]), prog.types[r["t"]]["s"][:60], r["k"])
    return str(r)


def show(prog, key):
    b = prog.bodies[key]
    out = ["fn %s (%d args) %s" % (key, b["args"], b["sp"])]
    for i, t in enumerate(b["locals"]):
        out.append("  _%d: %s" % (i, prog.types[t]["s"][:100]))
    for i, bl in enumerate(b["blocks"]):
        if bl["c"]:
            continue
        out.append(" bb%d:" % i)
        for s in bl["s"]:
            if s["s"] in ("live", "dead"):
                continue
            if s["s"] == "assign":
                out.append("   %s = %s" % (show_place(s["p"]), show_rv(s["r"], prog)))
            else:
                out.append("   " + str(s))
        t = bl["t"]
        if t["k"] == "call":
            out.append("   %s = %s(%s) -> %s" % (show_place(t["dest"]), show_op(t["f"]), ", ".join(show_op(o) for o in t["args"]), t["t"]))
        elif t["k"] == "switch":
            out.append("   switch %s %s else %s" % (show_op(t["o"]), t["vals"], t["otherwise"]))
        elif t["k"] == "assert":
            out.append("   assert %s==%s %s -> %s" % (show_op(t["o"]), t["expected"], t["msg"], t["t"]))
        elif t["k"] == "drop":
            out.append("   drop %s : %s -> %s" % (show_place(t["p"]), prog.types[t["ty"]]["s"][:60], t["t"]))
        else:
            out.append("   " + str(t)[:200])
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    from . import build
    p = Program(build.dump(sys.argv[1] == "debug", ()))
    for k in p.bodies:
        if all(a in k for a in sys.argv[2:]):
            print(show(p, k))
