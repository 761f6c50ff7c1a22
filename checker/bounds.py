"""Interval and linear reasoning over expr.X expressions and the branch facts at a point.

Arithmetic is taken as exact: that offset arithmetic does not wrap is property N04, outside this analysis.
"""
import expr, mir
from expr import X, last, subst, has_bad

TYMAX = {"u8": 255, "u16": 65535, "u32": (1 << 32) - 1, "bool": 1}
BIG = 1 << 62


class B:
    def __init__(self, F, x, facts):
        self.F, self.x = F, x
        self.facts = list(dict.fromkeys(facts))
        self.depth = 0

    # ---------- lower bound of an unsigned value
    def lb(self, e, depth=0):
        best = self._lb(e, depth)
        if depth < 6:
            for f in self.facts:
                if len(f) != 3 or f[0] not in expr.NEG:
                    continue
                op, a, c = f
                if a != e and c == e:
                    op, a, c = expr.FLIP[op], c, a
                if a == e:
                    if op in ("Ge", "Eq"):
                        v = self.lb_noself(c, depth + 1, e)
                    elif op == "Gt":
                        v = self.lb_noself(c, depth + 1, e) + 1
                    elif op == "Ne" and c == ("c", 0) and best == 0:
                        v = 1
                    elif op == "Ne" and c[0] == "c" and isinstance(c[1], int) and c[1] == best:
                        v = best + 1
                    else:
                        continue
                    if v > best:
                        best = v
        return best

    def lb_noself(self, c, depth, e):
        if c == e:
            return 0
        if c[0] == "c":
            return c[1] if isinstance(c[1], int) else 0
        return self.lb(c, depth)

    def _lb(self, e, depth):
        if depth > 8:
            return 0
        k = e[0]
        if k == "c":
            return int(e[1]) if isinstance(e[1], (int, bool)) else 0
        if k == "bin":
            op = e[1]
            if op == "Add":
                return self.lb(e[2], depth + 1) + self.lb(e[3], depth + 1)
            if op == "Mul":
                return self.lb(e[2], depth + 1) * self.lb(e[3], depth + 1)
            if op == "Sub":
                if e[3][0] == "c":
                    return max(0, self.lb(e[2], depth + 1) - e[3][1])
                # a - b with a > b known
                for f in self.facts:
                    if len(f) == 3 and ((f[0] == "Gt" and f[1] == e[2] and f[2] == e[3]) or (f[0] == "Lt" and f[1] == e[3] and f[2] == e[2])):
                        return 1
                return 0
            if op == "BitOr":
                return max(self.lb(e[2], depth + 1), self.lb(e[3], depth + 1))
            if op == "Shl":
                l = self.lb(e[2], depth + 1)
                return l
            if op == "Div" and e[3][0] == "c" and e[3][1]:
                return self.lb(e[2], depth + 1) // e[3][1]
            if op == "Shr" and e[3][0] == "c":
                return self.lb(e[2], depth + 1) >> e[3][1]
            return 0
        if k == "call":
            n = e[1]
            if n == "max":
                return max(self.lb(e[2], depth + 1), self.lb(e[3], depth + 1))
            if n == "min":
                return min(self.lb(e[2], depth + 1), self.lb(e[3], depth + 1))
            if n == "clamp":
                return self.lb(e[3], depth + 1)
            if n == "size_of":
                return 1
            if n == "assoc":
                return fn_lb(self.F, e[2])
            if n in ("saturating_add", "wrapping_add") and n[0] == "s":
                return self.lb(e[2], depth + 1) + self.lb(e[3], depth + 1)
            if n == "next_power_of_two":
                return 1
            if n == "unwrap_or" and len(e) == 4:
                return min(self.lb(self.x.payload(e[2], 99), depth + 1), self.lb(e[3], depth + 1))
            return 0
        if k == "cast":
            u = self.ub(e[2], depth + 1)
            if e[1] in TYMAX and u > TYMAX[e[1]]:
                return 0
            return self.lb(e[2], depth + 1)
        if k == "len":
            return self.len_lb(e[1], depth)
        if k == "call@":
            return fn_lb(self.F, e[2])
        if k == "cdef":
            return 0
        if k == "l":
            return self.local_lb(e[1], depth)
        return 0

    def local_lb(self, l, depth):
        x = self.x
        if ("lb", l) in x._busy or (l in x.mutref):
            return 0
        ds = x.b.defs.get(l, [])
        if not ds or l <= x.b.argc:
            return 0
        x._busy.add(("lb", l))
        try:
            best = None
            for bb, i, rv in ds:
                v = self.lb(x.rv(rv, bb, l), depth + 1)
                # an increment keeps the lower bound of the other definitions
                r = x.rv(rv, bb, l)
                if r[0] == "ovf":
                    r = r[1]
                if r[0] == "bin" and r[1] == "Add" and ("l", l) in (r[2], r[3]):
                    continue
                best = v if best is None else min(best, v)
            return best or 0
        finally:
            x._busy.discard(("lb", l))

    def len_lb(self, s, depth=0):
        """Lower bound of the length of the sequence s."""
        F, x = self.F, self.x
        if depth > 8:
            return 0
        if s[0] == "c" and isinstance(s[1], str):
            return len(s[1])
        if s[0] == "agg" and s[1] == "array":
            return len(s[3])
        if s[0] == "repeat" and s[2]:
            return s[2]
        t = self.seq_type(s)
        if t is not None:
            n = array_len(F, t)
            if n is not None:
                return n
        if s[0] == "l":
            init = x.init(s[1])
            if init is not None and init != s:
                # a buffer created with a known size and then only borrowed
                v = self.len_lb(init, depth + 1)
                if v and never_shrinks(F, x, s[1]):
                    return v
        if s[0] == "f" and s[1][0] in ("p", "l", "f"):
            v = field_len_lb(F, self.seq_type(s[1]), s[2], depth)
            if v:
                return v
        if s[0] == "call@":
            n = last(F.nice(s[2]))
            if n == "from_elem" and len(s) >= 5:
                return self.lb(s[4], depth + 1)
            if s[2] in F.bodies:
                return fn_len_lb(F, s[2])
        if s[0] == "call" and s[1] in ("unwrap_or", "unwrap_or_default"):
            return 0
        if s[0] == "some":
            src = s[1]
            # items of chunks_exact / windows have the chunk's length
            v = self.chunk_item(src, depth)
            if v:
                return v
            if src[0] == "call@" and src[2] in F.bodies:
                return payload_len_lb(F, src[2])
        if s[0] == "f" and s[1][0] == "call" and s[1][1] == "split_at" and len(s[1]) == 4:
            if s[2] == 0:
                return self.lb(s[1][3], depth + 1)
        return 0

    def chunk_item(self, src, depth):
        """src is an expression of iter.next(): the length of the items when the iterator yields fixed chunks."""
        x = self.x
        if src[0] == "call@" and last(self.F.nice(src[2])) == "next" and len(src) > 3:
            it = src[3]
            for _ in range(8):
                if it[0] == "l":
                    i = x.init(it[1])
                    if i is None or i == it:
                        return 0
                    it = i
                elif it[0] == "call@":
                    n = last(self.F.nice(it[2]))
                    if n in ("chunks_exact", "windows", "chunks_exact_mut", "array_chunks"):
                        return self.lb(it[4], depth + 1) if len(it) > 4 else 0
                    if n in ("into_iter", "iter", "take", "skip", "rev", "step_by"):
                        it = it[3]
                    else:
                        return 0
                else:
                    return 0
        return 0

    def seq_type(self, s):
        """The type of an expression, when it can be recovered."""
        x = self.x
        if s[0] in ("p", "l"):
            return x.b.lty(s[1])
        if s[0] == "f":
            bt = self.seq_type(s[1])
            return field_type(self.F, bt, s[2], s[1])
        if s[0] == "call@" and s[2] in self.F.bodies:
            return self.F.bodies[s[2]].lty(0)
        if s[0] == "down":
            return self.seq_type(s[1])
        if s[0] == "some":
            t = self.seq_type(s[1])
            if t is not None and x.opt_kind(t) in ("option", "result") and self.F.types[t]["k"] == "adt":
                return self.F.types[t]["a"][0]
        return None

    # ---------- upper bound
    def ub(self, e, depth=0):
        best = self._ub(e, depth)
        if depth < 5:
            for f in self.facts:
                if len(f) != 3 or f[0] not in expr.NEG:
                    continue
                op, a, c = f
                if a != e and c == e:
                    op, a, c = expr.FLIP[op], c, a
                if a == e and c != e:
                    if op in ("Le", "Eq"):
                        v = self.ub(c, depth + 1)
                    elif op == "Lt":
                        v = self.ub(c, depth + 1) - 1
                    else:
                        continue
                    best = min(best, v)
        return best

    def _ub(self, e, depth):
        if depth > 8:
            return BIG
        k = e[0]
        if k == "c":
            return int(e[1]) if isinstance(e[1], (int, bool)) else BIG
        tmax = self.type_max(e)
        r = BIG
        if k == "bin":
            op = e[1]
            if op == "Add":
                r = self.ub(e[2], depth + 1) + self.ub(e[3], depth + 1)
            elif op == "Mul":
                r = self.ub(e[2], depth + 1) * self.ub(e[3], depth + 1)
            elif op == "Sub":
                r = self.ub(e[2], depth + 1) - self.lb(e[3], depth + 1)
            elif op == "BitAnd":
                r = min(self.ub(e[2], depth + 1), self.ub(e[3], depth + 1))
            elif op in ("BitOr", "BitXor"):
                m = max(self.ub(e[2], depth + 1), self.ub(e[3], depth + 1))
                r = (1 << m.bit_length()) - 1 if m < BIG else BIG
            elif op == "Rem":
                r = min(self.ub(e[3], depth + 1) - 1, self.ub(e[2], depth + 1))
            elif op == "Div":
                l = self.lb(e[3], depth + 1)
                r = self.ub(e[2], depth + 1) // max(l, 1)
            elif op == "Shr" and e[3][0] == "c":
                r = self.ub(e[2], depth + 1) >> e[3][1]
            elif op == "Shr":
                r = self.ub(e[2], depth + 1)
            elif op == "Shl":
                s = self.ub(e[3], depth + 1)
                r = self.ub(e[2], depth + 1) << s if s < 64 else BIG
            elif op in expr.NEG:
                r = 1
        elif k == "call":
            n = e[1]
            if n == "min":
                r = min(self.ub(e[2], depth + 1), self.ub(e[3], depth + 1))
            elif n == "max":
                r = max(self.ub(e[2], depth + 1), self.ub(e[3], depth + 1))
            elif n == "clamp":
                r = self.ub(e[4], depth + 1)
            elif n == "assoc":
                r = fn_ub(self.F, e[2])
            elif n in ("saturating_sub",):
                r = self.ub(e[2], depth + 1)
            elif n == "unwrap_or" and len(e) == 4:
                r = max(self.ub(self.x.payload(e[2], 99), depth + 1), self.ub(e[3], depth + 1))
            elif n in ("leading_zeros", "count_ones"):
                r = 128
            elif n == "size_of":
                r = 4096
        elif k == "cast":
            u = self.ub(e[2], depth + 1)
            m = TYMAX.get(e[1], BIG)
            r = min(u, m) if u <= m else m
        elif k == "l":
            r = self.local_ub(e[1], depth)
        elif k == "call@":
            r = fn_ub(self.F, e[2])
        elif k == "some":
            r = self.iter_ub(e[1], depth)
        elif k == "len":
            t = self.seq_type(e[1])
            if t is not None:
                n = array_len(self.F, t)
                if n is not None:
                    r = n
            if r == BIG and e[1][0] == "some" and e[1][1][0] == "call@":
                r = payload_len_ub(self.F, e[1][1][2])
            n = collected(self.F, self.x, e[1])
            if n is not None:
                r = min(r, self.ub(n, depth + 1))
        elif k == "f" and depth < 5:
            t = self.seq_type(e[1])
            while t is not None and self.F.types[t]["k"] in ("ref", "ptr"):
                t = self.F.types[t]["t"]
            if t is not None and self.F.types[t]["k"] == "adt" and self.F.types[t]["d"] in self.F.adts:
                r = field_ub(self.F, self.F.types[t]["d"], e[2])
        return min(r, tmax)

    def iter_ub(self, src, depth):
        """Upper bound of what a range iterator yields."""
        rng = iter_range(self.F, self.x, src)
        if rng is None:
            return BIG
        lo, hi, incl = rng
        u = self.ub(hi, depth + 1)
        return u if incl else u - 1

    def local_ub(self, l, depth):
        x = self.x
        if ("ub", l) in x._busy or l in x.mutref:
            return BIG
        ds = x.b.defs.get(l, [])
        if not ds or l <= x.b.argc:
            return BIG
        x._busy.add(("ub", l))
        try:
            best = 0
            for bb, i, rv in ds:
                best = max(best, self.ub(x.rv(rv, bb, l), depth + 1))
            return best
        finally:
            x._busy.discard(("ub", l))

    def type_max(self, e):
        t = self.seq_type(e)
        if t is not None:
            s = self.F.tys(t)
            m = TYMAX.get(s.lstrip("&").replace("mut ", ""), BIG)
            return min(m, self.val_max(e)) if e[0] in ("some", "call@") else m
        if e[0] in ("some", "call@", "idx", "call"):
            return self.val_max(e)
        return BIG

    def val_max(self, e):
        """Value range by the name of the decoder that produced it."""
        s = e
        while s[0] == "some":
            s = s[1]
            while s[0] == "call" and s[1] in ("ok", "map_err", "branch", "ok_or") and len(s) > 2:
                s = s[2]
        if s[0] == "call@":
            n = last(self.F.nice(s[2]))
            for ty in ("u8", "u16", "u32"):
                if n.endswith("_" + ty):
                    return TYMAX[ty]
            if s[2] in self.F.bodies:
                r = self.F.tys(self.F.bodies[s[2]].lty(0))
                for ty in ("u8", "u16", "u32"):
                    if r == ty or r.endswith("<%s>" % ty) or r.startswith("std::result::Result<%s," % ty):
                        return TYMAX[ty]
        if s[0] == "idx":
            t = self.seq_type(s[1])
            if t is not None:
                et = elem_type(self.F, t)
                if et is not None:
                    return TYMAX.get(self.F.tys(et), BIG)
        return BIG

    # ---------- linear forms
    def lin(self, e, depth=0):
        """e as {atom: coefficient}, constant."""
        if e[0] == "c" and isinstance(e[1], (int, bool)):
            return {}, int(e[1])
        if e[0] == "ovf":
            return self.lin(e[1], depth)
        if e[0] == "bin" and depth < 8:
            op = e[1]
            if op in ("Add", "Sub"):
                a, ca = self.lin(e[2], depth + 1)
                b, cb = self.lin(e[3], depth + 1)
                s = 1 if op == "Add" else -1
                r = dict(a)
                for k, v in b.items():
                    r[k] = r.get(k, 0) + s * v
                    if r[k] == 0:
                        del r[k]
                return r, ca + s * cb
            if op == "Mul":
                a, ca = self.lin(e[2], depth + 1)
                b, cb = self.lin(e[3], depth + 1)
                if not a:
                    return {k: v * ca for k, v in b.items() if v * ca}, ca * cb
                if not b:
                    return {k: v * cb for k, v in a.items() if v * cb}, ca * cb
            if op == "Shl" and e[3][0] == "c" and isinstance(e[3][1], int) and e[3][1] < 32:
                a, ca = self.lin(e[2], depth + 1)
                m = 1 << e[3][1]
                return {k: v * m for k, v in a.items()}, ca * m
        if e[0] == "cast" and e[1] in ("usize", "u64", "i64", "i128", "u128") and depth < 8:
            u = self.ub(e[2], 2)
            if u < BIG:
                return self.lin(e[2], depth + 1)
        if e[0] == "len":
            n = self.len_expr(e[1])
            if n is not None:
                return self.lin(n, depth + 1)
        return {e: 1}, 0

    def len_expr(self, s):
        """The length of s as an expression, when it was created with one."""
        x = self.x
        t = self.seq_type(s)
        if t is not None:
            n = array_len(self.F, t)
            if n is not None:
                return ("c", n)
        if s[0] == "l":
            init = x.init(s[1])
            if init is not None and init != s and never_resized(self.F, x, s[1]):
                if init[0] == "call@" and last(self.F.nice(init[2])) == "from_elem" and len(init) >= 5:
                    return init[4]
                if init[0] == "repeat" and init[2] is not None:
                    return ("c", init[2])
                if init[0] == "agg" and init[1] == "array":
                    return ("c", len(init[3]))
        if s[0] == "call@" and last(self.F.nice(s[2])) == "from_elem" and len(s) >= 5:
            return s[4]
        return None

    def ineqs(self):
        """Facts as linear forms that are >= 0."""
        if hasattr(self, "_iq"):
            return self._iq
        out = []
        def add(hi, lo, k):
            a, ca = self.lin(hi)
            b, cb = self.lin(lo)
            r = dict(a)
            for key, v in b.items():
                r[key] = r.get(key, 0) - v
                if r[key] == 0:
                    del r[key]
            out.append((r, ca - cb - k))
        for f in self.facts:
            if len(f) != 3 or f[0] not in expr.NEG:
                continue
            op, a, c = f
            if op == "Ge":
                add(a, c, 0)
            elif op == "Gt":
                add(a, c, 1)
            elif op == "Le":
                add(c, a, 0)
            elif op == "Lt":
                add(c, a, 1)
            elif op == "Eq":
                add(a, c, 0)
                add(c, a, 0)
        self._iq = out
        return out

    def atom_facts(self, g):
        """Inequalities that come with the atoms of a form."""
        out = []
        for a in g:
            if a[0] == "bin" and a[1] == "Rem":
                b, cb = self.lin(a[3])
                r = dict(b)
                r[a] = r.get(a, 0) - 1
                out.append((r, cb - 1))
            elif a[0] == "bin" and a[1] == "Div" and a[3][0] == "c" and isinstance(a[3][1], int) and a[3][1] > 0:
                # k * (x / k) <= x
                b, cb = self.lin(a[2])
                r = dict(b)
                r[a] = r.get(a, 0) - a[3][1]
                out.append((r, cb))
            elif a[0] == "bin" and a[1] == "Div":
                # x / d * d <= x is not linear; x / d <= x
                b, cb = self.lin(a[2])
                r = dict(b)
                r[a] = r.get(a, 0) - 1
                out.append((r, cb))
            elif a[0] == "call" and a[1] == "min":
                for z in (a[2], a[3]):
                    b, cb = self.lin(z)
                    r = dict(b)
                    r[a] = r.get(a, 0) - 1
                    out.append((r, cb))
            elif a[0] == "call" and a[1] == "max":
                for z in (a[2], a[3]):
                    b, cb = self.lin(z)
                    r = {k: -v for k, v in b.items()}
                    r[a] = r.get(a, 0) + 1
                    out.append((r, -cb))
            elif a[0] == "call" and a[1] == "saturating_sub":
                b, cb = self.lin(a[2])
                r = dict(b)
                r[a] = r.get(a, 0) - 1
                out.append((r, cb))
            elif a[0] == "some":
                rng = iter_range(self.F, self.x, a[1])
                if rng:
                    lo, hi, incl = rng
                    b, cb = self.lin(hi)
                    r = dict(b)
                    r[a] = r.get(a, 0) - 1
                    out.append((r, cb - (0 if incl else 1)))
                    b, cb = self.lin(lo)
                    r = {k: -v for k, v in b.items()}
                    r[a] = r.get(a, 0) + 1
                    out.append((r, -cb))
                en = enum_source(self.F, self.x, a)
            elif a[0] == "f" and a[1][0] == "some" and a[2] == 0:
                # index of enumerate()
                s = enumerate_len(self.F, self.x, a[1][1])
                if s is not None:
                    b, cb = self.lin(s)
                    r = dict(b)
                    r[a] = r.get(a, 0) - 1
                    out.append((r, cb - 1))
        return out

    def nonneg(self, g, c, depth=3, used=()):
        """The linear form g + c is >= 0, given the facts."""
        # bounds of the atoms themselves
        tot = c
        for a, k in g.items():
            if k > 0:
                tot += k * self.lb(a)
            else:
                u = self.ub(a)
                if u >= BIG:
                    tot = None
                    break
                tot += k * u
        if tot is not None and tot >= 0:
            return True
        if depth == 0:
            return False
        neg = [a for a, k in g.items() if k < 0]
        cands = self.ineqs() + self.atom_facts(g)
        for i, (r, rc) in enumerate(cands):
            if i in used and i < len(self.ineqs()):
                continue
            # the fact must bound a negative atom
            for a in neg:
                if r.get(a, 0) < 0:
                    m = g[a] / r[a]
                    if m <= 0 or m != int(m):
                        if m > 0 and (1 / m) == int(1 / m):
                            # scale the goal instead
                            s = int(1 / m)
                            ng = {k: v * s for k, v in g.items()}
                            if self.sub(ng, c * s, r, rc, 1, depth, used + (i,)):
                                return True
                        continue
                    if self.sub(g, c, r, rc, int(m), depth, used + (i,)):
                        return True
        return False

    def sub(self, g, c, r, rc, m, depth, used):
        ng = dict(g)
        for k, v in r.items():
            ng[k] = ng.get(k, 0) - v * m
            if ng[k] == 0:
                del ng[k]
        return self.nonneg(ng, c - rc * m, depth - 1, used)

    def le(self, a, b, k=0):
        """a + k <= b"""
        if a == b:
            return k <= 0
        la, ca = self.lin(a)
        lb_, cb = self.lin(b)
        g = dict(lb_)
        for key, v in la.items():
            g[key] = g.get(key, 0) - v
            if g[key] == 0:
                del g[key]
        return self.nonneg(g, cb - ca - k)

    def lt(self, a, b):
        return self.le(a, b, 1)

    def nonzero(self, e):
        if self.lb(e) > 0:
            return True
        for f in self.facts:
            if len(f) == 3 and f[0] == "Ne" and ((f[1] == e and f[2] == ("c", 0)) or (f[2] == e and f[1] == ("c", 0))):
                return True
        if e[0] == "cast":
            # a narrowing conversion of a non-zero value may be zero; a widening one is not a cast here
            t = {"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1}.get(e[1], BIG)
            return self.ub(e[2]) <= t and self.nonzero(e[2])
        if e[0] == "bin" and e[1] == "Mul":
            return self.nonzero(e[2]) and self.nonzero(e[3])
        if e[0] == "bin" and e[1] == "Sub":
            for f in self.facts:
                if len(f) == 3 and f[0] == "Ne" and {f[1], f[2]} == {e[2], e[3]}:
                    return True
        if e[0] == "l" and e[1] > self.x.b.argc and e[1] not in self.x.mutref:
            ds = self.x.b.defs.get(e[1], [])
            key = ("nz", e[1])
            if ds and key not in self.x._busy:
                self.x._busy.add(key)
                try:
                    return all(B(self.F, self.x, self.x.facts(bb)).nonzero(self.x.rv(rv, bb, e[1])) for bb, i, rv in ds)
                finally:
                    self.x._busy.discard(key)
        return False


def enum_source(F, x, a):
    return None


def enumerate_len(F, x, src):
    """src = enumerate().next(): the length of the sequence enumerated."""
    if src[0] == "call@" and last(F.nice(src[2])) == "next" and len(src) > 3:
        it = src[3]
        en = False
        for _ in range(8):
            if it[0] == "l":
                i = x.init(it[1])
                if i is None or i == it:
                    return None
                it = i
            elif it[0] == "call@":
                n = last(F.nice(it[2]))
                if n == "enumerate":
                    en = True
                    it = it[3]
                elif n in ("into_iter", "iter", "iter_mut", "take", "skip", "filter", "rev") and len(it) > 3:
                    it = it[3]
                else:
                    return None
            else:
                return ("len", it) if en else None
    return None


def iter_range(F, x, src):
    """src = <range iterator>.next(): (low, high, inclusive)."""
    if src[0] == "call@" and last(F.nice(src[2])) == "next" and len(src) > 3:
        it = src[3]
        for _ in range(8):
            if it[0] == "l":
                i = x.init(it[1])
                if i is None or i == it:
                    return None
                it = i
            elif it[0] == "call@":
                n = last(F.nice(it[2]))
                if n in ("into_iter", "rev", "take", "skip", "step_by", "filter") and len(it) > 3:
                    it = it[3]
                else:
                    return None
            elif it[0] == "agg" and it[1].endswith("Range::Range"):
                return it[3][0], it[3][1], False
            elif it[0] == "agg" and it[1].endswith("RangeInclusive::RangeInclusive"):
                return it[3][0], it[3][1], True
            else:
                return None
    return None


def array_len(F, t):
    x = F.types[t]
    while x["k"] in ("ref", "ptr"):
        x = F.types[x["t"]]
    if x["k"] == "array" and isinstance(x["len"], int):
        return x["len"]
    return None


def elem_type(F, t):
    x = F.types[t]
    while x["k"] in ("ref", "ptr"):
        x = F.types[x["t"]]
    if x["k"] in ("array", "slice"):
        return x["t"]
    if x["k"] == "adt" and x["d"].split("::")[-1] in ("Vec", "VecDeque", "Box") and x["a"]:
        return elem_type(F, x["a"][0]) if x["d"].endswith("Box") else x["a"][0]
    return None


def field_type(F, t, i, base=None):
    if t is None:
        return None
    x = F.types[t]
    while x["k"] in ("ref", "ptr"):
        x = F.types[x["t"]]
    if x["k"] == "adt":
        if x["d"].endswith("Box") and x["a"]:
            return field_type(F, x["a"][0], i, base)
        a = F.adts.get(x["d"])
        v = 0
        if base is not None and base[0] == "down":
            v = base[2]
        if a and v < len(a["v"]) and i < len(a["v"][v]["f"]):
            return a["v"][v]["f"][i].get("t")
        return None
    if x["k"] == "tuple" and i < len(x["a"]):
        return x["a"][i]
    return None


SHRINK = {"truncate", "clear", "pop", "remove", "drain", "split_off", "set_len", "resize", "swap_remove", "retain", "dedup", "take"}
RESIZE = SHRINK | {"push", "extend", "extend_from_slice", "append", "insert", "resize_with", "read_to_end", "write_all"}


def mut_calls(F, x, l):
    """Names of the functions the local is passed to mutably."""
    b = x.b
    out = set()
    refs = {l}
    changed = True
    while changed:
        changed = False
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and not s["p"][1] and s["r"]["k"] in ("ref", "rawptr") and s["r"]["p"][0] in refs and (s["r"].get("mut") or s["r"]["k"] == "rawptr") and s["p"][0] not in refs:
                    refs.add(s["p"][0])
                    changed = True
    for bb in b.reach:
        t = b.blocks[bb]["t"]
        if t["k"] == "call":
            for a in t["a"]:
                if a["k"] in ("copy", "move") and a["p"][0] in refs - {l}:
                    out.add(last(F.nice(t.get("res") or t.get("f") or "?")))
    return out


_field_len = {}


def field_len_lb(F, t, i, depth=0):
    """The length every vector in field i of this structure has from the start, when nothing can make it shorter."""
    ty = F.types[t] if t is not None else {"k": ""}
    while ty["k"] in ("ref", "ptr"):
        ty = F.types[ty["t"]]
    a = F.adts.get(ty.get("d"))
    if ty["k"] != "adt" or not a or a["kind"] != "struct" or not a.get("local") or depth > 4 or i >= len(a["v"][0]["f"]):
        return 0
    fi = a["v"][0]["f"][i]
    k = (id(F), ty["d"], i)
    if k not in _field_len:
        _field_len[k] = 0
        if fi.get("pub") is not True and fi.get("t") is not None and F.types[fi["t"]].get("d") == "alloc::vec::Vec":
            _field_len[k] = made_len_lb(F, ty["d"], i, F.tys(fi["t"]), depth)
    return _field_len[k]


def made_len_lb(F, d, i, vec, depth):
    """The least length field i of structure d is made with; 0 when it can be replaced or resized later."""
    best = None
    for b in F.bodies.values():
        x = None
        for bb in b.reach:
            blk = b.blocks[bb]
            for s in blk["s"]:
                if s["k"] != "=":
                    continue
                r = s["r"]
                if r["k"] == "agg" and r.get("d") == d:
                    x = x or X.of(F, b)
                    n = B(F, x, x.facts(bb)).len_lb(x.op(r["ops"][i]), depth + 1)
                    best = n if best is None else min(best, n)
                elif field_place(F, b, s["p"], d, i):
                    return 0
                elif r["k"] in ("ref", "rawptr") and r.get("mut") and field_place(F, b, r["p"], d, i):
                    # borrowed to change its elements only
                    if s["p"][1] or not elements_only(F, b, s["p"][0]):
                        return 0
            t = blk["t"]
            if t["k"] == "call" and field_place(F, b, t["d"], d, i):
                return 0
    return best or 0


def field_place(F, b, p, d, i):
    """The place is field i of a structure d."""
    pr = p[1]
    if not pr or pr[-1][0] != "f" or pr[-1][1] != i:
        return False
    t = b.place_ty((p[0], pr[:-1]))
    return t is None or F.types[t].get("d") == d


def elements_only(F, b, l):
    for bb, t in b.calls():
        for a in t["a"]:
            if a.get("k") in ("copy", "move") and a["p"][0] == l and last(F.nice(t.get("res") or t.get("f") or "")) not in ("deref_mut", "index_mut", "as_mut_slice", "iter_mut", "deref", "len", "as_mut"):
                return False
    # not handed on in any other way
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s["k"] == "=" and s["r"]["k"] in ("use", "agg", "cast"):
                for o in [s["r"].get("o")] + list(s["r"].get("ops") or []):
                    if isinstance(o, dict) and o.get("k") in ("copy", "move") and o["p"][0] == l:
                        return False
    return True


def never_shrinks(F, x, l):
    return not (mut_calls(F, x, l) & SHRINK)


def never_resized(F, x, l):
    return not (mut_calls(F, x, l) & RESIZE)


_flb, _fub, _fll = {}, {}, {}


def fn_values(F, f):
    """The expressions a local function can return, with the facts at the return."""
    b = F.bodies.get(f)
    if b is None:
        return None
    x = X.of(F, b)
    out = []
    for bb, i, rv in b.defs.get(0, []):
        out.append((x.rv(rv, bb, 0), B(F, x, x.facts(bb))))
    if 0 in x.mutref:
        return None
    return out or None


def impls_of(F, f):
    """Bodies a trait method can stand for."""
    if f in F.bodies and not (F.fns.get(f) or {}).get("in_trait"):
        return [f]
    out = [f] if f in F.bodies else []
    tr = f.rsplit("::", 1)
    for im in F.impls:
        if im["trait"] == tr[0]:
            for it in im["items"]:
                if it[2] == f and it[1] in F.bodies:
                    out.append(it[1])
    return out


def collected(F, x, s):
    """The end of the range whose items (at most) were collected into s."""
    while s[0] == "some" or (s[0] == "call" and s[1] in ("branch", "map_err", "ok", "ok_or") and len(s) > 2):
        s = s[1] if s[0] == "some" else s[2]
    if s[0] != "call@" or last(F.nice(s[2])) != "collect" or len(s) < 4:
        return None
    return range_items(F, s[3])


def range_items(F, src):
    """The end of the range an iterator goes over, each number giving at most one item."""
    for _ in range(8):
        if src[0] == "agg" and src[1].endswith("ops::range::Range::Range"):
            return src[3][1] if len(src[3]) > 1 else None
        if src[0] not in ("call", "call@"):
            return None
        a = [y for y in src[2:] if isinstance(y, tuple)]
        nm = src[1] if src[0] == "call" else last(F.nice(src[2]))
        if not a or nm not in ("map", "enumerate", "into_iter", "iter", "rev", "zip", "cloned", "copied", "inspect", "step_by", "take_while", "filter", "filter_map", "map_while", "skip", "take"):
            return None
        src = a[0]
    return None


_fu = {}


def field_writes(F):
    """{(adt, field): [(body, block, value expression or None)]}: everything ever stored in a field of a struct."""
    k = id(F)
    if k in _fu:
        return _fu[k]
    import mods
    w = {}
    for b in F.bodies.values():
        x = X.of(F, b)
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s["k"] != "=":
                    continue
                r = s["r"]
                if r["k"] == "agg" and r.get("d") in F.adts and F.adts[r["d"]]["kind"] == "struct":
                    for i, o in enumerate(r["ops"]):
                        w.setdefault((r["d"], i), []).append((b, bb, ("op", o)))
                if s["p"][1]:
                    fs, t = mods.path_fields(F, b, s["p"])
                    if fs and s["p"][1][-1] != "*" and s["p"][1][-1][0] == "f":
                        w.setdefault(fs[-1], []).append((b, bb, ("rv", r, s["p"][0])))
                if (r["k"] == "ref" and r["mut"]) or (r["k"] == "rawptr" and r.get("mut", True)):
                    fs, t = mods.path_fields(F, b, r["p"])
                    if fs and r["p"][1][-1] != "*" and r["p"][1][-1][0] == "f":
                        w.setdefault(fs[-1], []).append((b, bb, None))
            t = b.blocks[bb]["t"]
            if t["k"] == "call" and t["d"][1] and t["d"][1][-1] != "*" and t["d"][1][-1][0] == "f":
                fs, _ = mods.path_fields(F, b, t["d"])
                if fs:
                    w.setdefault(fs[-1], []).append((b, bb, None))
    _fu[k] = w
    return w


_fub2 = {}


def field_ub(F, adt, i):
    """Upper bound of an integer field: of everything that is ever stored in it."""
    key = (id(F), adt, i)
    if key in _fub2:
        return _fub2[key]
    _fub2[key] = BIG
    ws = field_writes(F).get((adt, i))
    if not ws or any(w[2] is None for w in ws) or len(ws) > 30:
        return BIG
    best = 0
    for b, bb, v in ws:
        x = X.of(F, b)
        e = x.op(v[1]) if v[0] == "op" else x.rv(v[1], bb, v[2])
        if e[0] == "bin" and e[1] in ("Sub", "Shr", "Div") and e[2][0] == "f" and e[2][2] == i and same_adt(F, x, e[2][1], adt):
            continue  # only gets smaller
        if e[0] == "f" and e[2] == i and same_adt(F, x, e[1], adt):
            continue  # a copy
        best = max(best, B(F, x, x.facts(bb)).ub(e))
        if best >= BIG:
            break
    _fub2[key] = best
    return best


def same_adt(F, x, base, adt):
    t = B(F, x, []).seq_type(base)
    while t is not None and F.types[t]["k"] in ("ref", "ptr"):
        t = F.types[t]["t"]
    return t is not None and F.types[t].get("d") == adt


def fn_lb(F, f):
    if f in _flb:
        return _flb[f]
    _flb[f] = 0
    best = None
    for g in impls_of(F, f):
        vs = fn_values(F, g)
        if vs is None:
            best = 0
            break
        for e, bb in vs:
            v = bb.lb(e)
            best = v if best is None else min(best, v)
    _flb[f] = best or 0
    return _flb[f]


def fn_ub(F, f):
    if f in _fub:
        return _fub[f]
    _fub[f] = BIG
    best = None
    for g in impls_of(F, f):
        vs = fn_values(F, g)
        if vs is None:
            best = BIG
            break
        for e, bb in vs:
            v = bb.ub(e)
            best = v if best is None else max(best, v)
    _fub[f] = BIG if best is None else best
    return _fub[f]


def op_array_len(F, b, o, depth=0):
    """Length of the array an operand is (a reference to, or an unsized reference to)."""
    t = b.op_ty(o)
    while t is not None and F.types[t]["k"] in ("ref", "ptr"):
        t = F.types[t]["t"]
    if t is not None and F.types[t]["k"] == "array":
        return F.types[t].get("len")
    if o["k"] in ("copy", "move") and not o["p"][1] and depth < 6:
        d = b.defs.get(o["p"][0], [])
        if len(d) == 1 and d[0][2]["k"] in ("cast", "use"):
            return op_array_len(F, b, d[0][2]["o"], depth + 1)
        if len(d) == 1 and d[0][2]["k"] == "ref" and d[0][2]["p"][1] and d[0][2]["p"][1][-1] == "*":
            return op_array_len(F, b, {"k": "copy", "p": [d[0][2]["p"][0], d[0][2]["p"][1][:-1]]}, depth + 1)
        if len(d) == 1 and d[0][2]["k"] == "call" and (d[0][2].get("res") or d[0][2].get("f")) not in F.bodies:
            c = d[0][2]
            n = last(F.nice(c.get("res") or c.get("f") or "?"))
            if n in ("as_slice", "as_mut_slice", "as_ref", "deref", "borrow", "each_ref") and len(c["a"]) == 1:
                return op_array_len(F, b, c["a"][0], depth + 1)
            if n in ("index", "index_mut") and len(c["a"]) == 2 and F.tys(b.op_ty(c["a"][1])).split("::")[-1] == "RangeFull":
                return op_array_len(F, b, c["a"][0], depth + 1)
    return None


_pll = {}


def payload_len_lb(F, f):
    """Lower bound of the length of the sequence inside the Some/Ok a local function returns."""
    if f in _pll:
        return _pll[f]
    _pll[f] = 0
    best = None
    for g in impls_of(F, f):
        b = F.bodies[g]
        x = X.of(F, b)
        kind = x.opt_kind(b.lty(0))
        if kind not in ("option", "result") or 0 in x.mutref:
            return 0
        good = {"option": 1, "result": 0}[kind]
        for bb, i, rv in b.defs.get(0, []):
            v = 0
            if rv["k"] == "agg":
                if rv["v"] != good:
                    continue
                v = op_array_len(F, b, rv["ops"][0])
                if v is None:
                    v = B(F, x, x.facts(bb)).len_lb(x.op(rv["ops"][0]))
            elif rv["k"] == "call":
                if last(F.nice(rv.get("f") or "?")) == "from_residual":
                    continue
                v = B(F, x, x.facts(bb)).len_lb(("some", x.call(rv, bb)))
            elif rv["k"] == "use":
                e = x.op(rv["o"])
                if e[0] == "agg" and e[2] != good:
                    continue
                v = B(F, x, x.facts(bb)).len_lb(x.payload(e, 99))
            best = v if best is None else min(best, v)
    _pll[f] = best or 0
    return _pll[f]


_plu = {}


def payload_len_ub(F, f):
    """Upper bound of the length of the sequence inside the Some/Ok a local function returns: it is always an array."""
    if f not in _plu:
        _plu[f] = BIG
        best = 0
        for g in impls_of(F, f) or (None,):
            if g is None:
                return BIG
            b = F.bodies[g]
            x = X.of(F, b)
            kind = x.opt_kind(b.lty(0))
            if kind not in ("option", "result") or 0 in x.mutref or not b.defs.get(0):
                return BIG
            for bb, i, rv in b.defs[0]:
                if rv["k"] == "agg" and rv["v"] != {"option": 1, "result": 0}[kind]:
                    continue
                if rv["k"] == "call" and last(F.nice(rv.get("f") or "?")) == "from_residual":
                    continue
                v = op_array_len(F, b, rv["ops"][0]) if rv["k"] == "agg" else None
                if not isinstance(v, int):
                    return BIG
                best = max(best, v)
        _plu[f] = best
    return _plu[f]


def fn_len_lb(F, f):
    if f in _fll:
        return _fll[f]
    _fll[f] = 0
    vs = fn_values(F, f)
    if vs is None:
        return 0
    r = None
    for e, bb in vs:
        v = bb.len_lb(e)
        r = v if r is None else min(r, v)
    _fll[f] = r or 0
    return _fll[f]
