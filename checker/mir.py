"""Loading of the MIR facts and the generic program-analysis machinery.

A `Facts` object wraps the JSON produced by the driver; a `Body` wraps one MIR body and
offers CFG queries (successors without unwinding, dominators, natural loops), reaching
definitions for whole locals and a small symbolic value resolver.
"""
import json, sys
from functools import lru_cache

sys.setrecursionlimit(20000)


class Place:
    __slots__ = ("l", "p")

    def __init__(self, j):
        self.l = j[0]
        self.p = tuple(x if isinstance(x, str) else tuple(x) for x in j[1])

    def __repr__(self):
        return fmt_place((self.l, self.p))


def pl(j):
    """JSON place -> hashable (local, projection tuple)."""
    return (j[0], tuple(x if isinstance(x, str) else tuple(x) for x in j[1]))


def fmt_place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "ci":
            s += "[%s%d]" % ("-" if e[3] else "", e[1])
        elif e[0] == "sub":
            s += "[%d:%s%d]" % (e[1], "-" if e[3] else "", e[2])
        elif e[0] == "dc":
            s = "(%s as %s)" % (s, e[2])
        else:
            s += ".?"
    return s


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.types = d["types"]
        self.adts = d["adts"]
        self.fns = d["fns"]
        self.consts = d["consts"]
        self.impls = d["impls"]
        self.traits = d["traits"]
        self.defs = d["defs"]
        self.bodies = {}
        for k, v in d["bodies"].items():
            self.bodies[k] = Body(self, k, v)
        # trait item -> implementing items
        self.impl_of = {}
        for i in self.impls:
            for n, item, titem in i["items"]:
                if titem:
                    self.impl_of.setdefault(titem, []).append((item, i["self"]))
        self.closures_of = {}
        for k, f in self.fns.items():
            if "root" in f:
                self.closures_of.setdefault(f["root"], []).append(k)

    # ---- types
    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i]["s"]

    def strip_ref(self, i):
        t = self.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["t"]
            t = self.types[i]
        return i

    def adt_path(self, i):
        t = self.types[i]
        return t.get("d") if t["k"] == "adt" else None

    def nice(self, path):
        return self.defs.get(path, path)

    def find_fn(self, nice):
        return [k for k, f in self.fns.items() if f["nice"] == nice]

    def fn_bodies(self):
        for k, b in self.bodies.items():
            if b.kind in ("fn", "closure"):
                yield k, b


class Body:
    def __init__(self, facts, bid, j):
        self.F = facts
        self.id = bid
        self.j = j
        self.kind = j["kind"]
        self.nice = j["nice"]
        self.file = j["file"]
        self.line = j["line"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self._succ = None
        self._pred = None
        self._reach = None
        self._dom = None
        self._defs = None
        self._pdom = None

    # ---- types
    def lty(self, l):
        return self.locals[l][0]

    def lname(self, l):
        return self.locals[l][1]

    def place_ty(self, p):
        """Type id of a place (best effort)."""
        F = self.F
        t = self.locals[p[0]][0]
        for e in p[1]:
            k = F.types[t]
            if e == "*":
                if k["k"] in ("ref", "ptr"):
                    t = k["t"]
                elif k["k"] == "adt" and k["a"]:
                    t = k["a"][0]  # Box<T>
                else:
                    return None
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                if k["k"] in ("array", "slice"):
                    t = k["t"]
                else:
                    return None
            elif e[0] == "sub":
                pass
            elif e[0] == "dc":
                pass
            else:
                return None
        return t

    def op_ty(self, o):
        if o["k"] in ("copy", "move"):
            return self.place_ty(pl(o["p"]))
        if o["k"] == "const":
            return o["t"]
        return None

    # ---- cfg
    def term(self, b):
        return self.blocks[b]["t"]

    def raw_succ(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "call":
            return [t["t"]] if t.get("t") is not None else []
        if k == "switch":
            out = []
            for v, x in t["v"]:
                if x not in out:
                    out.append(x)
            if t["o"] not in out:
                out.append(t["o"])
            return out
        return []

    @property
    def succ(self):
        if self._succ is None:
            self._succ = [self.raw_succ(b) for b in range(len(self.blocks))]
        return self._succ

    @property
    def reach(self):
        """Blocks reachable from entry without unwinding (in a reverse post order)."""
        if self._reach is None:
            seen = set()
            post = []
            stack = [(0, iter(self.succ[0]))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    post.append(b)
                    stack.pop()
            self._reach = post[::-1]
        return self._reach

    @property
    def pred(self):
        if self._pred is None:
            r = set(self.reach)
            self._pred = {b: [] for b in r}
            for b in r:
                for s in self.succ[b]:
                    self._pred[s].append(b)
        return self._pred

    @property
    def dom(self):
        """block -> set of dominators."""
        if self._dom is None:
            order = self.reach
            allb = set(order)
            dom = {b: allb for b in order}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [dom[p] for p in self.pred[b]]
                    n = set.intersection(*ps) if ps else set()
                    n = n | {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._dom = dom
        return self._dom

    def loops(self):
        """Natural loops: header -> set of blocks."""
        res = {}
        for b in self.reach:
            for s in self.succ[b]:
                if s in self.dom[b]:
                    body = {s, b}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in self.pred[x]:
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    res.setdefault(s, set()).update(body)
        return res

    def reachable_from(self, b, avoid=()):
        seen = set()
        st = [b]
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            st.extend(self.succ[x])
        return seen

    # ---- statements
    def stmts(self):
        for b in self.reach:
            for i, s in enumerate(self.blocks[b]["s"]):
                yield b, i, s

    def calls(self):
        for b in self.reach:
            t = self.blocks[b]["t"]
            if t["k"] == "call":
                yield b, t

    def callee(self, t):
        """(nice name of the named function, resolved path or None)"""
        if "f" in t:
            return self.F.nice(t["f"])
        return None

    @property
    def defs(self):
        """local -> list of (bb, idx, rvalue-or-terminator) that assign the whole local."""
        if self._defs is None:
            d = {}
            for b in self.reach:
                for i, s in enumerate(self.blocks[b]["s"]):
                    if s["k"] == "=" and not s["p"][1]:
                        d.setdefault(s["p"][0], []).append((b, i, s["r"]))
                t = self.blocks[b]["t"]
                if t["k"] == "call" and not t["d"][1]:
                    d.setdefault(t["d"][0], []).append((b, len(self.blocks[b]["s"]), t))
            self._defs = d
        return self._defs

    def single_def(self, l):
        d = self.defs.get(l)
        if d and len(d) == 1 and l > self.argc:
            return d[0]
        return None

    def where(self, line=None):
        return "%s (%s:%s)" % (self.nice, self.file, line if line is not None else self.line)


def op_place(o):
    if o["k"] in ("copy", "move"):
        return pl(o["p"])
    return None


def const_val(o):
    """Python value of a constant operand, or None."""
    if o.get("k") != "const":
        return None
    return decode(o.get("v"))


def decode(v):
    if isinstance(v, dict):
        if "str" in v:
            return v["str"]
    return v


def pyval(v):
    """Decode an evaluated constant into nested python data.

    ints/bools/strings are themselves; arrays & tuples are lists/tuples; enums and structs
    become ("adt", path, variantname, [fields]); references are looked through.
    """
    if isinstance(v, dict):
        if "str" in v:
            return v["str"]
        if "ref" in v:
            return pyval(v["ref"])
        if "arr" in v:
            return [pyval(x) for x in v["arr"]]
        if "tup" in v:
            return tuple(pyval(x) for x in v["tup"])
        if "adt" in v:
            return ("adt", v["adt"], v["n"], [pyval(x) for x in v["f"]])
        if "static" in v:
            return ("static", v["static"])
        if "float" in v:
            return float(v["float"])
    return v


def load(path="/verif/.cache/facts/libopenraw.json"):
    return Facts(path)


# ---------------------------------------------------------------- pretty printing
def fmt_op(F, o):
    if o["k"] in ("copy", "move"):
        return ("move " if o["k"] == "move" else "") + fmt_place(pl(o["p"]))
    if o["k"] == "const":
        t = F.types[o["t"]]
        if t["k"] == "fndef":
            return "fn " + F.nice(t["d"])
        v = o.get("v")
        s = json.dumps(pyval(v)) if v is not None else (o.get("def", "?") + ("#p%d" % o["promoted"] if "promoted" in o else ""))
        return "const %s: %s" % (s[:80], t["s"][:60])
    return "?"


def fmt_rv(F, r):
    k = r["k"]
    if k == "use":
        return fmt_op(F, r["o"])
    if k == "repeat":
        return "[%s; %s]" % (fmt_op(F, r["o"]), r["n"])
    if k == "ref":
        return "&%s%s" % ("mut " if r["mut"] else "", fmt_place(pl(r["p"])))
    if k == "rawptr":
        return "&raw %s %s" % (r["mut"], fmt_place(pl(r["p"])))
    if k == "cast":
        return "%s as %s (%s)" % (fmt_op(F, r["o"]), F.tys(r["t"])[:80], r["c"][:40])
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], fmt_op(F, r["a"]), fmt_op(F, r["b"]))
    if k == "un":
        return "%s(%s)" % (r["op"], fmt_op(F, r["o"]))
    if k == "discr":
        return "discriminant(%s)" % fmt_place(pl(r["p"]))
    if k == "agg":
        n = r["ak"] + (":" + r["d"].split("::")[-1] + "::" + r.get("n", "") if "d" in r else "")
        return "%s{%s}" % (n, ", ".join(fmt_op(F, o) for o in r["ops"]))
    return k


def dump_body(b):
    F = b.F
    print("fn %s  argc=%d  %s:%d" % (b.nice, b.argc, b.file, b.line))
    for i, (t, n) in enumerate(b.locals):
        print("  let _%d: %s  %s" % (i, F.tys(t)[:100], n or ""))
    for bb in b.reach:
        print(" bb%d:" % bb)
        for s in b.blocks[bb]["s"]:
            if s["k"] == "=":
                print("   %s = %s   // %s" % (fmt_place(pl(s["p"])), fmt_rv(F, s["r"]), s["l"]))
        t = b.term(bb)
        k = t["k"]
        if k == "call":
            n = b.callee(t) or "<%s>" % fmt_op(F, t["fp"])
            r = F.nice(t["res"]) if t.get("res") else None
            print("   %s = %s(%s) -> %s  // %s %s" % (fmt_place(pl(t["d"])), n, ", ".join(fmt_op(F, a) for a in t["a"]), t["t"], t["l"], ("res " + r) if r and r != n else ""))
        elif k == "switch":
            print("   switch %s %s else %d" % (fmt_op(F, t["d"]), t["v"], t["o"]))
        elif k == "assert":
            print("   assert(%s == %s, %s, %s) -> %d // %s" % (fmt_op(F, t["c"]), t["e"], t["m"], [fmt_op(F, o) for o in t["ops"]], t["t"], t["l"]))
        elif k == "drop":
            print("   drop(%s) -> %d" % (fmt_place(pl(t["p"])), t["t"]))
        else:
            print("   %s %s" % (k, t.get("t", "")))


if __name__ == "__main__":
    F = load()
    for a in sys.argv[1:]:
        for k, b in F.bodies.items():
            if a in b.nice or a in k:
                dump_body(b)
