"""The set of integers a value can be at a program point: a forward dataflow of interval sets, path-sensitive in boolean flags."""
import mir
from expr import X, NEG, FLIP, subst

INF = 1 << 70


def norm(iv):
    iv = sorted((a, b) for a, b in iv if a <= b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def meet(p, q):
    return norm([(max(a, c), min(b, d)) for a, b in p for c, d in q])


def minus(p, q):
    r = list(p)
    for c, d in q:
        n = []
        for a, b in r:
            if b < c or a > d:
                n.append((a, b))
            else:
                n += [(a, c - 1), (d + 1, b)]
        r = norm(n)
    return norm(r)


ALL = ((-INF, INF),)


def type_range(F, t):
    s = F.tys(t)
    w = {"8": 8, "16": 16, "32": 32, "64": 64, "size": 64, "128": 128}.get(s[1:])
    if w is None:
        return ALL
    return ((0, (1 << w) - 1),) if s[0] == "u" else ((-(1 << (w - 1)), (1 << (w - 1)) - 1),)


class Ranges:
    """Interval sets of expression `e` at the blocks of body b."""

    def __init__(self, F, b, e, start=None, depth=0):
        self.F, self.b, self.x, self.e, self.depth = F, b, X.of(F, b), e, depth
        self.start = start or ALL
        # boolean locals assigned on several paths
        self.flags = {l for l, d in b.defs.items() if len(d) > 1 and F.types[b.lty(l)]["k"] == "bool" and l not in self.x.mutref}
        self.at = {}
        self.solve()

    def const(self, e):
        e = self.strip(e)
        if e[0] == "c" and isinstance(e[1], (int, bool)):
            return int(e[1])
        return None

    def strip(self, e):
        while e[0] == "cast" and e[2][0] == "c":
            e = e[2]
        if e[0] == "discr" and e[1][0] == "agg":
            # the number of a unit variant
            p = e[1][1].rsplit("::", 1)[0]
            a = self.F.adts.get(p)
            if a and a["kind"] == "enum" and isinstance(e[1][2], int):
                return ("c", a["v"][e[1][2]]["discr"])
        return e

    def is_e(self, x):
        return x == self.e

    def restrict(self, iv, e, truth):
        """iv limited to the values for which boolean expression e may have the given value."""
        if e[0] == "un" and e[1] == "Not":
            return self.restrict(iv, e[2], not truth)
        if e[0] == "bin" and e[1] in ("BitAnd", "BitOr"):
            both = (e[1] == "BitAnd") == truth
            if both:
                return self.restrict(self.restrict(iv, e[2], truth), e[3], truth)
            return norm(self.restrict(iv, e[2], truth) + self.restrict(iv, e[3], truth))
        if e[0] == "bin" and e[1] in NEG:
            op = e[1] if truth else NEG[e[1]]
            a, c = e[2], e[3]
            if self.is_e(c):
                op, a, c = FLIP[op], c, a
            if self.is_e(a):
                k = self.const(c)
                if k is not None:
                    return meet(iv, {"Lt": ((-INF, k - 1),), "Le": ((-INF, k),), "Gt": ((k + 1, INF),), "Ge": ((k, INF),), "Eq": ((k, k),),
                                     "Ne": ((-INF, k - 1), (k + 1, INF))}[op])
            return iv
        if e[0] == "call" and e[1] == "contains" and len(e) == 4 and self.is_e(e[3]):
            s = e[2]
            r = None
            if s[0] == "agg" and "Range" in s[1]:
                cs = [self.const(a) for a in s[3][:2]]
                if all(c is not None for c in cs):
                    if s[1].endswith("RangeInclusive") and len(cs) == 2:
                        r = ((cs[0], cs[1]),)
                    elif s[1].endswith("Range::Range"):
                        r = ((cs[0], cs[1] - 1),)
                    elif s[1].endswith("RangeFrom::RangeFrom"):
                        r = ((cs[0], INF),)
                    elif s[1].endswith("RangeTo::RangeTo"):
                        r = ((-INF, cs[0] - 1),)
                    elif s[1].endswith("RangeToInclusive::RangeToInclusive"):
                        r = ((-INF, cs[0]),)
            elif s[0] == "agg" and s[1] == "array":
                cs = [self.const(a) for a in s[3]]
                if all(c is not None for c in cs):
                    r = norm([(c, c) for c in cs])
            elif s[0] == "c" and isinstance(s[1], (tuple, list)):
                if all(isinstance(c, int) for c in s[1]):
                    r = norm([(c, c) for c in s[1]])
            if r is None:
                return iv
            return meet(iv, r) if truth else minus(iv, r)
        if e[0] in ("call@", "pure"):
            f, args = (e[2], e[3:]) if e[0] == "call@" else (e[1], e[2:])
            if f in self.F.bodies and self.depth < 3:
                for i, a in enumerate(args):
                    if self.is_e(a):
                        return meet(iv, truth_set(self.F, f, i + 1, truth, self.depth + 1))
            return iv
        if e[0] in ("l", "p"):
            # a flag decided on one path
            return iv
        return iv

    def edge(self, bb, tgt, st):
        """State (flag values -> intervals) after the edge bb -> tgt."""
        t = self.b.blocks[bb]["t"]
        x = self.x
        if t["k"] == "assert":
            e = x.op(t["c"])
            return {k: v for k, v in ((k, self.restrict(v, e, bool(t["e"]))) for k, v in st.items()) if v}
        if t["k"] != "switch":
            return st
        dty = self.b.op_ty(t["d"])
        vals = [int(v) for v, y in t["v"] if y == tgt]
        other = t["o"] == tgt
        out = {}
        isbool = dty is not None and self.F.types[dty]["k"] == "bool"
        root = None
        if t["d"]["k"] in ("copy", "move") and not t["d"]["p"][1]:
            root = t["d"]["p"][0]
        e = x.op(t["d"])
        for k, iv in st.items():
            if isbool:
                tv = set(bool(v) for v in vals)
                if other:
                    tv |= {True, False} - set(bool(int(v)) for v, _ in t["v"])
                l = e[1] if e[0] == "l" and e[1] in self.flags else root if root in self.flags else None
                d = dict(k)
                if l is not None and l in d:
                    val = d[l]
                    if isinstance(val, bool):
                        if val in tv:
                            out[k] = norm(out.get(k, ()) + iv)
                        continue
                    r = ()
                    for v in tv:
                        r = norm(r + self.restrict(iv, val, v))
                    if r:
                        out[k] = norm(out.get(k, ()) + r)
                    continue
                r = ()
                for v in tv:
                    r = norm(r + self.restrict(iv, e, v))
            elif self.is_e(e) or (e[0] == "cast" and self.is_e(e[2])):
                allv = [int(v) for v, _ in t["v"]]
                w = type_range(self.F, dty)[0] if dty is not None else (-INF, INF)

                def sg(v):
                    # switch values are bit patterns
                    return v - (w[1] - w[0] + 1) if w[0] < 0 and v > w[1] else v
                r = ()
                if vals:
                    r = meet(iv, norm([(sg(v), sg(v)) for v in vals]))
                if other:
                    r = norm(r + minus(iv, norm([(sg(v), sg(v)) for v in allv])))
            else:
                r = iv
                for f in self.x.edge_facts(bb, tgt) if self.depth < 3 else ():
                    # what a call that succeeded says about its argument
                    if f[0] == "ok" and f[1][0] in ("call@", "pure"):
                        g, args = (f[1][2], f[1][3:]) if f[1][0] == "call@" else (f[1][1], f[1][2:])
                        if g in self.F.bodies:
                            for i, a in enumerate(args):
                                if self.is_e(a):
                                    r = meet(r, ok_set(self.F, g, i + 1, self.depth + 1))
            if r:
                out[k] = norm(out.get(k, ()) + r)
        return out

    def block(self, bb, st):
        """Assignments of flags in the block."""
        for s in self.b.blocks[bb]["s"]:
            if s["k"] == "=" and not s["p"][1] and s["p"][0] in self.flags:
                l, r = s["p"][0], s["r"]
                v = self.x.rv(r, bb, l)
                if v == ("l", l):
                    v = None
                elif v[0] == "c":
                    v = bool(v[1])
                st = self.setflag(st, l, v)
        t = self.b.blocks[bb]["t"]
        if t["k"] == "call" and not t["d"][1] and t["d"][0] in self.flags:
            st = self.setflag(st, t["d"][0], self.x.call(t, bb))
        return st

    def setflag(self, st, l, v):
        out = {}
        for k, iv in st.items():
            d = dict(k)
            d.pop(l, None)
            w = v
            # a copy of another flag
            if isinstance(v, tuple) and v[0] == "l" and v[1] in self.flags:
                w = d.get(v[1])
            if w is not None:
                d[l] = w
            n = tuple(sorted(d.items(), key=lambda z: z[0]))
            out[n] = norm(out.get(n, ()) + iv)
        return out

    def solve(self):
        self.at = {0: {(): self.start}}
        work = [0]
        n = 0
        while work:
            bb = work.pop(0)
            n += 1
            if n > 4000:
                self.at = None
                return
            st = self.block(bb, self.at[bb])
            if len(st) > 64:
                m = ()
                for v in st.values():
                    m = norm(m + v)
                st = {(): m}
            for s in self.b.succ[bb]:
                ns = self.edge(bb, s, st)
                if not ns:
                    continue
                old = self.at.get(s, {})
                new = dict(old)
                for k, v in ns.items():
                    new[k] = norm(new.get(k, ()) + v)
                if new != old:
                    self.at[s] = new
                    if s not in work:
                        work.append(s)

    def get(self, bb):
        if self.at is None:
            return ALL
        r = ()
        for v in self.at.get(bb, {}).values():
            r = norm(r + v)
        return r


    def returning(self, truth):
        """The values for which the (boolean) function may return truth."""
        out = ()
        b, x = self.b, self.x
        for bb in b.reach:
            if b.blocks[bb]["t"]["k"] != "return" or bb not in self.at:
                continue
            v0 = x.local(0)
            for key, iv in self.block(bb, self.at[bb]).items():
                v = dict(key).get(0, None)
                if v is None:
                    v = v0
                want = truth
                while isinstance(v, tuple):
                    if v[0] == "un" and v[1] == "Not":
                        v, want = v[2], not want
                    elif v[0] == "l" and dict(key).get(v[1]) is not None:
                        v = dict(key)[v[1]]
                    else:
                        break
                if isinstance(v, bool) or v[0] == "c":
                    if bool(v if isinstance(v, bool) else v[1]) == want:
                        out = norm(out + iv)
                    continue
                out = norm(out + self.restrict(iv, v, want))
        return out


_ts = {}


def truth_set(F, f, p, truth, depth):
    """Values of integer parameter p for which bool function f may return truth."""
    k = (id(F), f, p, truth)
    if k in _ts:
        return _ts[k]
    _ts[k] = ALL
    b = F.bodies[f]
    if F.types[b.lty(0)]["k"] != "bool":
        return ALL
    x = X.of(F, b)
    e = x.local(p)
    if e != ("p", p):
        return ALL
    R = Ranges(F, b, e, depth=depth)
    if R.at is None:
        return ALL
    _ts[k] = R.returning(truth)
    return _ts[k]


def ok_set(F, f, p, depth):
    """Values of integer parameter p for which f may return Ok or Some."""
    k = (id(F), f, p, "ok")
    if k in _ts:
        return _ts[k]
    _ts[k] = ALL
    b = F.bodies[f]
    x = X.of(F, b)
    e = x.local(p)
    kind = x.opt_kind(b.lty(0))
    if e != ("p", p) or not kind or p > b.argc or F.types[b.lty(p)]["k"] != "int":
        return ALL
    R = Ranges(F, b, e, depth=depth)
    if R.at is None:
        return ALL
    good = {"option": 1, "result": 0, "flow": 0}[kind]
    out = ()
    for bb, _, rv in b.defs.get(0, []):
        if bb not in b.reach or rv["k"] == "agg" and rv.get("v") != good:
            continue
        if rv["k"] == "call" and (rv.get("f") or "").split("::")[-1] == "from_residual":
            continue
        out = norm(out + R.get(bb))
    if any(b.defs.get(0, [])):
        _ts[k] = out
    return _ts[k]
