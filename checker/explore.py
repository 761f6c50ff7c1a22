"""Abstract path exploration of small functions.

A path-sensitive abstract interpreter over MIR: values are symbolic terms, branches on unknown
conditions fork the abstract state and record the fact that was assumed.  Nothing is executed
and no solver is used; every loop is walked at most twice per path, which is enough for the
acyclic questions asked here (is a pointer tested before use, what is stored, what is returned).
Closures, Option/Result combinators and local helpers are followed, so the answers do not
depend on whether code is written inline, in a closure or in a helper.
"""
import re

from mir import *

MAXSTATES = 20000

OPT, RES = "Option", "Result"


class Limit(Exception):
    pass


class State:
    __slots__ = ("env", "heap", "facts", "log")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.facts = {}
        self.log = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.log = self.log
        return s


class FC:
    """A hashable evaluated constant."""

    __slots__ = ("v", "key")

    def __init__(self, v):
        self.v = v
        self.key = json.dumps(v, sort_keys=True)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, FC) and o.key == self.key

    def __repr__(self):
        return self.key


def is_ptr_arith(n):
    return ("const_ptr" in n or "mut_ptr" in n) and n.split("::")[-1] in (
        "add", "sub", "offset", "wrapping_add", "wrapping_sub", "wrapping_offset", "byte_add", "byte_sub", "byte_offset")


def strip_cast(v):
    while isinstance(v, tuple) and v and v[0] == "cast":
        v = v[1]
    return v


class Explorer:
    def __init__(self, F, inline=lambda body: False, hooks=None):
        self.F = F
        self.inline = inline
        self.nframe = 0
        self.nstates = 0
        self.panics = []
        self.vtypes = {}  # result type of opaque calls
        self.events = []  # (kind, value, body, line, state)
        self.fresh = 0
        self.tenv = {}  # frame -> what its type parameters are
        self.ctenv = {}  # closure -> the same of the frame that made it
        self.byname = None

    # ------------------------------------------------------------ type parameters
    def ty(self, fr, t):
        """The type t of a generic body, as the frame instantiates it."""
        env = self.tenv.get(fr)
        return t if t is None or not env else self.subst(t, env)

    def subst(self, t, env):
        F = self.F
        k = F.types[t]
        if k["k"] == "param":
            return env.get(k["s"], t)
        kids = [x for x in ([k["t"]] if isinstance(k.get("t"), int) else []) + list(k.get("a") or []) if isinstance(x, int)]
        new = [self.subst(x, env) for x in kids]
        if new == kids:
            return t
        m = dict(zip(kids, new))
        s = re.sub(r"\b(%s)\b" % "|".join(map(re.escape, env)), lambda x: F.tys(env[x.group(1)]), k["s"])
        if self.byname is None:
            self.byname = {x["s"]: i for i, x in reversed(list(enumerate(F.types)))}
        if s not in self.byname:
            n = dict(k, s=s)
            if "t" in n:
                n["t"] = m.get(n["t"], n["t"])
            if n.get("a"):
                n["a"] = [m.get(x, x) for x in n["a"]]
            self.byname[s] = len(F.types)
            F.types.append(n)
        return self.byname[s]

    def unify(self, pat, t, env):
        if pat is None or t is None or pat == t:
            return
        a, b = self.F.types[pat], self.F.types[t]
        if a["k"] == "param":
            env.setdefault(a["s"], t)
            return
        if a["k"] != b["k"] or a.get("d") != b.get("d"):
            return
        if isinstance(a.get("t"), int) and isinstance(b.get("t"), int):
            self.unify(a["t"], b["t"], env)
        for x, y in zip(a.get("a") or [], b.get("a") or []):
            if isinstance(x, int) and isinstance(y, int):
                self.unify(x, y, env)

    def bind(self, body, ta, atys, dty):
        """What the type parameters of body are when it is called like that."""
        env = {}
        for i, t in enumerate(atys or []):
            if i < body.argc:
                self.unify(body.lty(i + 1), t, env)
        self.unify(body.lty(0), dty, env)
        if not env and len(ta) == 1:
            ps = {x for i in range(body.argc + 1) for x in self.params(body.lty(i))}
            if len(ps) == 1:
                env[ps.pop()] = ta[0]
        return env

    def params(self, t):
        k = self.F.types[t]
        if k["k"] == "param":
            yield k["s"]
        for x in ([k["t"]] if isinstance(k.get("t"), int) else []) + list(k.get("a") or []):
            if isinstance(x, int):
                yield from self.params(x)

    # ------------------------------------------------------------ entry point
    def run(self, body, args=None):
        """Returns [(state, retval)] for every abstract path to a return."""
        st = State()
        if args is None:
            args = [("arg", i + 1) for i in range(body.argc)]
        return list(self.exec_body(body, args, st, 0))

    # ------------------------------------------------------------ lvalues
    def lval(self, st, fr, body, p, line):
        cur = ("L", (fr, p[0]), ())
        ty = body.lty(p[0])
        F = self.F
        for e in p[1]:
            k = F.types[ty] if ty is not None else {"k": "?"}
            if e == "*":
                v = self.read(st, cur)
                raw = k["k"] == "ptr"
                cur = self.deref(st, v, raw, body, line, "dereferenced")
                if k["k"] in ("ref", "ptr"):
                    ty = k["t"]
                elif k["k"] == "adt" and k["a"]:
                    ty = k["a"][0]
                else:
                    ty = None
            else:
                if e[0] == "f":
                    ty = e[2]
                    pe = ("f", e[1])
                elif e[0] == "dc":
                    pe = ("dc", e[1])
                elif e[0] == "i":
                    pe = ("i", self.read(st, ("L", (fr, e[1]), ())))
                    ty = k.get("t")
                elif e[0] == "ci":
                    pe = ("i", ("int", e[1]) if not e[3] else ("endoff", e[1]))
                    ty = k.get("t")
                else:
                    pe = tuple(e)
                cur = (cur[0], cur[1], cur[2] + (pe,))
        return cur

    def deref(self, st, v, raw, body, line, how):
        sv = strip_cast(v)
        if isinstance(sv, tuple) and sv[0] == "addr":
            return sv[1]
        if isinstance(sv, tuple) and sv[0] == "const" and isinstance(sv[1].v, dict) and "ref" in sv[1].v:
            return ("C", FC(sv[1].v["ref"]), ())
        if raw:
            self.need_nonnull(st, sv, body, line, how)
        return ("M", sv, ())

    def need_nonnull(self, st, v, body, line, how):
        sv = strip_cast(v)
        n = self.nullness(st, sv)
        if n is not False:
            self.events.append(("maybe-null", sv, body, line, how, n))
            # report each path prefix once: afterwards it is known to be non null
            st.facts[("isnull", sv)] = False

    def nullness(self, st, v):
        """True: null, False: not null, None: unknown."""
        v = strip_cast(v)
        if ("isnull", v) in st.facts:
            return st.facts[("isnull", v)]
        if not isinstance(v, tuple):
            return None
        if v[0] == "null":
            return True
        if v[0] in ("addr", "own", "static", "fn", "ptrof"):
            return False
        if v[0] == "const":
            c = v[1].v
            if isinstance(c, dict) and "rawptr" in c:
                return c["rawptr"] == 0
            return False
        if v[0] == "int":
            return v[1] == 0
        if v[0] == "transmute":
            return False
        if v[0] == "call" and v[2] and is_ptr_arith(v[1]):
            return self.nullness(st, v[2][0])
        if v[0] == "call":
            return False  # pointers produced by library calls (as_ptr and the like)
        return None  # arguments and what is loaded from memory

    def read(self, st, lv):
        kind, base, proj = lv
        if kind == "L":
            if base in st.env:
                v = st.env[base]
            else:
                v = ("uninit", base)
            return self.project(st, v, proj)
        if kind == "C":
            return self.project(st, self.const(base.v), proj)
        if kind == "V" and (base, proj) not in st.heap:
            return self.project(st, base, proj)
        # memory behind an unknown pointer; look for the longest prefix that was written
        for n in range(len(proj), -1, -1):
            k = (base, proj[:n])
            if k in st.heap:
                return self.project(st, st.heap[k], proj[n:])
        return ("mem", base, proj)

    def project(self, st, v, proj):
        for e in proj:
            v = self.proj1(st, v, e)
        return v

    def proj1(self, st, v, e):
        if e[0] == "dc":
            return v
        if isinstance(v, tuple):
            if v[0] == "agg":
                if e[0] == "f" and e[1] < len(v[4]):
                    return v[4][e[1]]
                if e[0] == "i" and isinstance(e[1], tuple) and e[1][0] == "int" and e[1][1] < len(v[4]):
                    return v[4][e[1][1]]
            if v[0] == "const" and isinstance(v[1].v, dict):
                c = v[1].v
                l = c.get("arr") or c.get("tup") or c.get("f")
                if l is not None:
                    i = e[1] if e[0] == "f" else (e[1][1] if e[0] == "i" and isinstance(e[1], tuple) and e[1][0] == "int" else None)
                    if i is not None and i < len(l):
                        return self.const(l[i])
            if v[0] == "mem":
                return ("mem", v[1], v[2] + (e,))
        return ("field", v, e)

    def write(self, st, lv, val):
        kind, base, proj = lv
        if kind == "L":
            if not proj:
                st.env[base] = val
            else:
                old = st.env.get(base, ("uninit", base))
                st.env[base] = self.upd(old, proj, val)
        else:
            for k in [k for k in st.heap if k[0] == base and (k[1][: len(proj)] == proj or proj[: len(k[1])] == k[1])]:
                if k[1] == proj[: len(k[1])] and len(k[1]) < len(proj):
                    st.heap[k] = self.upd(st.heap[k], proj[len(k[1]):], val)
                    return
                del st.heap[k]
            st.heap[(base, proj)] = val

    def upd(self, old, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e[0] == "dc":
            return self.upd(old, proj[1:], val)
        if isinstance(old, tuple) and old[0] == "agg" and e[0] == "f" and e[1] < len(old[4]):
            fs = list(old[4])
            fs[e[1]] = self.upd(fs[e[1]], proj[1:], val)
            return old[:4] + (tuple(fs),)
        if e[0] == "f":
            n = e[1] + 1
            fs = [("field", old, ("f", i)) for i in range(n)]
            fs[e[1]] = self.upd(fs[e[1]], proj[1:], val)
            return ("agg", "partial", None, 0, tuple(fs))
        return ("modified", old, proj, val)

    # ------------------------------------------------------------ operands
    def const(self, v):
        if isinstance(v, bool):
            return ("int", int(v))
        if isinstance(v, int):
            return ("int", v)
        if isinstance(v, dict):
            if "adt" in v:
                return ("agg", "adt", v["adt"], v["v"], tuple(self.const(x) for x in v["f"]))
            if "tup" in v:
                return ("agg", "tuple", None, 0, tuple(self.const(x) for x in v["tup"]))
            if "rawptr" in v and v["rawptr"] == 0:
                return ("null",)
            if "static" in v:
                return ("static", v["static"])
        return ("const", FC(v))

    def operand(self, st, fr, body, o, line):
        if o["k"] == "const":
            t = self.F.types[o["t"]]
            if t["k"] == "fndef":
                return ("fn", t.get("res") or t["d"], t["d"], tuple(self.ty(fr, x) if isinstance(x, int) else x for x in t["a"]))
            if "v" in o:
                return self.const(o["v"])
            if "promoted" in o:
                return self.promoted(o["def"], o["promoted"])
            if "def" in o:
                return ("constdef", o["def"])
            if t["k"] == "tuple" and not t["a"]:
                return ("agg", "tuple", None, 0, ())
            if t["k"] == "closure":
                return ("agg", "closure", t["d"], 0, ())
            return ("constunk", o["t"])
        if o["k"] in ("copy", "move"):
            return self.read(st, self.lval(st, fr, body, pl(o["p"]), line))
        return ("rt",)

    def promoted(self, d, n):
        k = "%s::promoted[%d]" % (d, n)
        b = self.F.bodies.get(k)
        if b is not None and len(b.blocks) < 10:
            try:
                st = State()
                rs = list(self.exec_body(b, [], st, 6))
            except Limit:
                rs = []
            if len(rs) == 1:
                s, v = rs[0]
                if isinstance(v, tuple) and v[0] == "addr" and v[1][0] == "L":
                    return ("addr", ("V", self.read(s, v[1]), ()))
                return v
        return ("promoted", d, n)

    def rvalue(self, st, fr, body, r, line):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, body, r["o"], line)
        if k in ("ref", "rawptr"):
            lv = self.lval(st, fr, body, pl(r["p"]), line)
            if lv[0] == "M" and not lv[2]:
                return lv[1]  # reborrow
            return ("addr", lv)
        if k == "cast":
            v = self.operand(st, fr, body, r["o"], line)
            if isinstance(v, tuple) and v[0] == "int":
                t = self.F.types[r["t"]]
                if t["k"] == "int":
                    return ("int", wrap(v[1], t["n"]))
                if t["k"] == "ptr" and v[1] == 0:
                    return ("null",)
            if "Transmute" in r["c"]:
                ft = self.F.types[body.op_ty(r["o"])] if body.op_ty(r["o"]) is not None else {"k": "?"}
                if ft["k"] == "adt" and ("BoxRaw" in ft["d"] or "NonNull" in ft["d"] or "Unique" in ft["d"]):
                    return ("transmute", v)
                return ("cast", v, r["t"])
            return ("cast", v, r["t"])
        if k == "bin":
            a = self.operand(st, fr, body, r["a"], line)
            b = self.operand(st, fr, body, r["b"], line)
            return self.binop(st, r["op"], a, b)
        if k == "un":
            a = self.operand(st, fr, body, r["o"], line)
            if r["op"] == "Not" and isinstance(a, tuple) and a[0] == "int" and a[1] in (0, 1):
                return ("int", 1 - a[1])
            if r["op"] == "Not" and isinstance(a, tuple) and a[0] == "un" and a[1] == "Not":
                return a[2]
            return ("un", r["op"], a)
        if k == "discr":
            lv = self.lval(st, fr, body, pl(r["p"]), line)
            v = self.read(st, lv)
            ty = body.place_ty(pl(r["p"]))
            if isinstance(v, tuple) and v[0] == "agg" and v[1] == "adt" and v[2] in self.F.adts and not v[4]:
                return ("int", self.discr_of(ty, v[3]))
            return ("discr", v, ty)
        if k == "agg":
            ops = tuple(self.operand(st, fr, body, o, line) for o in r["ops"])
            if r["ak"] == "closure" and fr in self.tenv:
                self.ctenv[r["d"]] = self.tenv[fr]
            return ("agg", r["ak"], r.get("d"), r.get("v", 0), ops)
        if k == "repeat":
            return ("repeat", self.operand(st, fr, body, r["o"], line), r["n"])
        return ("opaque", k, line)

    def binop(self, st, op, a, b):
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            try:
                f = {"Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y,
                     "Gt": lambda: x > y, "Ge": lambda: x >= y, "Add": lambda: x + y, "Sub": lambda: x - y,
                     "Mul": lambda: x * y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y, "Shr": lambda: x >> y}.get(op)
                if f:
                    return ("int", int(f()))
            except Exception:
                pass
        if op in ("Eq", "Ne"):
            an, bn = self.nullness(st, a), self.nullness(st, b)
            if (a[0] == "null") != (b[0] == "null"):
                other = b if a[0] == "null" else a
                c = ("isnullv", strip_cast(other))
                return c if op == "Eq" else ("un", "Not", c)
            if op == "Ne":
                return ("un", "Not", ("bin", "Eq", a, b))
        return ("bin", op, a, b)

    # ------------------------------------------------------------ branching
    def truth(self, st, v):
        """Yields (state, bool) for the possible truth values of v."""
        neg = False
        while isinstance(v, tuple) and v[0] == "un" and v[1] == "Not":
            neg = not neg
            v = v[2]
        if isinstance(v, tuple):
            if v[0] == "int":
                yield st, bool(v[1]) != neg
                return
            if v[0] == "isnullv":
                n = self.nullness(st, v[1])
                if n is not None:
                    yield st, n != neg
                    return
                for x in (True, False):
                    s = st.copy()
                    s.facts[("isnull", strip_cast(v[1]))] = x
                    yield s, x != neg
                return
            if v[0] == "isvariant":
                for s, vi in self.variant(st, v[1], v[3]):
                    yield s, (vi == v[2]) != neg
                return
        key = ("bool", v)
        if key in st.facts:
            yield st, st.facts[key] != neg
            return
        for x in (True, False):
            s = st.copy()
            s.facts[key] = x
            yield s, x != neg

    def variant(self, st, v, n):
        """Yields (state, variant index) for value v of an enum with n variants."""
        if isinstance(v, tuple) and v[0] == "agg" and v[1] == "adt":
            yield st, v[3]
            return
        key = ("variant", v)
        if key in st.facts:
            yield st, st.facts[key]
            return
        ex = st.facts.get(("notvariant", v), frozenset())
        for i in range(n):
            if i in ex:
                continue
            s = st.copy()
            s.facts[key] = i
            yield s, i

    def nvariants(self, tyid, default=2):
        if tyid is None:
            return default
        t = self.F.types[tyid]
        if t["k"] == "adt":
            a = self.F.adts.get(t["d"])
            if a and a["kind"] == "enum":
                return len(a["v"])
        return default

    def discr_of(self, tyid, vi):
        t = self.F.types[tyid] if tyid is not None else None
        if t and t["k"] == "adt":
            a = self.F.adts.get(t["d"])
            if a and a["kind"] == "enum" and vi < len(a["v"]):
                return a["v"][vi]["discr"]
        return vi

    # ------------------------------------------------------------ bodies
    def exec_body(self, body, args, st, depth, tenv=None):
        self.nframe += 1
        fr = self.nframe
        if tenv:
            self.tenv[fr] = tenv
        st = st.copy()
        for i, a in enumerate(args):
            st.env[(fr, i + 1)] = a
        work = [(0, st, {})]
        while work:
            bb, s, visits = work.pop()
            self.nstates += 1
            if self.nstates > MAXSTATES:
                raise Limit(body.nice)
            c = visits.get(bb, 0)
            if c >= 2:
                continue
            visits = dict(visits)
            visits[bb] = c + 1
            blk = body.blocks[bb]
            for x in blk["s"]:
                if x["k"] == "=":
                    v = self.rvalue(s, fr, body, x["r"], x["l"])
                    lv = self.lval(s, fr, body, pl(x["p"]), x["l"])
                    self.write(s, lv, v)
                elif x["k"] == "setdiscr":
                    lv = self.lval(s, fr, body, pl(x["p"]), x["l"])
                    old = self.read(s, lv)
                    fs = old[4] if isinstance(old, tuple) and old[0] == "agg" else ()
                    ty = body.place_ty(pl(x["p"]))
                    d = self.F.types[ty].get("d") if ty is not None else None
                    self.write(s, lv, ("agg", "adt", d, x["v"], fs))
            t = blk["t"]
            k = t["k"]
            if k in ("goto", "assert"):
                work.append((t["t"], s, visits))
            elif k == "drop":
                lv = self.lval(s, fr, body, pl(t["p"]), t["l"])
                v = self.read(s, lv)
                s.log = s.log + (("drop", v, self.ty(fr, t["ty"]), body.nice, t["l"]),)
                work.append((t["t"], s, visits))
            elif k == "return":
                yield s, s.env.get((fr, 0), ("agg", "tuple", None, 0, ()))
            elif k == "switch":
                v = self.operand(s, fr, body, t["d"], t["l"])
                for s2, bb2 in self.switch(s, v, t, body):
                    work.append((bb2, s2, visits))
            elif k == "call":
                if t.get("t") is None:
                    self.call_diverges(s, fr, body, t)
                    continue
                for s2, rv in self.call(s, fr, body, t, depth):
                    lv = self.lval(s2, fr, body, pl(t["d"]), t["l"])
                    self.write(s2, lv, rv)
                    work.append((t["t"], s2, visits))

    def call_diverges(self, s, fr, body, t):
        self.panics.append((body, t["l"], (body.callee(t) or "?"), s))

    def switch(self, s, v, t, body):
        vals = t["v"]
        if isinstance(v, tuple) and v[0] == "int":
            for x, b in vals:
                if x == v[1]:
                    yield s, b
                    return
            yield s, t["o"]
            return
        if isinstance(v, tuple) and v[0] == "discr":
            n = self.nvariants(v[2])
            for s2, vi in self.variant(s, v[1], n):
                d = self.discr_of(v[2], vi)
                for x, b in vals:
                    if x == d:
                        yield s2, b
                        break
                else:
                    yield s2, t["o"]
            return
        ty = body.op_ty(t["d"])
        if ty is not None and self.F.types[ty]["k"] == "bool":
            for s2, x in self.truth(s, v):
                for y, b in vals:
                    if bool(y) == x:
                        yield s2, b
                        break
                else:
                    yield s2, t["o"]
            return
        key = ("val", v)
        if key in s.facts:
            c = s.facts[key]
            for x, b in vals:
                if x == c:
                    yield s, b
                    return
            yield s, t["o"]
            return
        for x, b in vals:
            s2 = s.copy()
            s2.facts[key] = x
            yield s2, b
        yield s.copy(), t["o"]

    # ------------------------------------------------------------ calls
    def invoke(self, st, f, args, depth, body, line):
        """Call a function value (closure aggregate or fn item) with the argument list."""
        F = self.F
        f0 = f
        if isinstance(f, tuple) and f[0] == "addr":
            f = self.read(st, f[1])
        if isinstance(f, tuple) and f[0] == "agg" and f[1] == "closure":
            b = F.bodies.get(f[2])
            if b is not None and depth < 8:
                selfty = F.types[b.lty(1)]
                env = f
                if selfty["k"] == "ref":
                    self.fresh += 1
                    k = (-self.fresh, 0)
                    st = st.copy()
                    st.env[k] = f
                    env = ("addr", ("L", k, ()))
                yield from self.exec_body(b, [env] + list(args), st, depth + 1, self.ctenv.get(f[2]))
                return
        if isinstance(f, tuple) and f[0] == "fn":
            yield from self.callpath(st, f[2], f[1], f[3], list(args), depth, body, line, None)
            return
        yield st, ("call", "<fnptr>", (f,) + tuple(args), line)

    def call(self, st, fr, body, t, depth):
        args = [self.operand(st, fr, body, a, t["l"]) for a in t["a"]]
        if "f" not in t:
            f = self.operand(st, fr, body, t["fp"], t["l"])
            yield from self.invoke(st, f, args, depth, body, t["l"])
            return
        dty = self.ty(fr, body.place_ty(pl(t["d"])))
        atys = [self.ty(fr, body.op_ty(a)) for a in t["a"]]
        ta = tuple(self.ty(fr, x) if isinstance(x, int) else x for x in t.get("ta", ()))
        res = t.get("res")
        if res is None and fr in self.tenv and ta:
            im = [i for i, s in self.F.impl_of.get(t["f"], ()) if s == ta[0]]
            res = im[0] if len(im) == 1 else None
        yield from self.callpath(st, t["f"], res, ta, args, depth, body, t["l"], dty, atys)

    def callpath(self, st, f, res, ta, args, depth, body, line, dty, atys=None):
        F = self.F
        n = F.nice(f)
        out = self.model(st, n, res, ta, args, depth, body, line, dty, atys)
        if out is not None:
            yield from out
            return
        b = F.bodies.get(res) if res else None
        if b is not None and b.kind in ("fn", "closure") and depth < 8 and self.inline(b):
            if b.kind == "closure" and len(args) == 2 and args[1][0] == "agg" and args[1][1] == "tuple":
                args = [args[0]] + list(args[1][4])
            yield from self.exec_body(b, args, st, depth + 1, self.bind(b, ta, atys, dty) if b.kind == "fn" else self.ctenv.get(b.id))
            return
        st = st.copy()
        if not (n.startswith("core::ptr::") or "const_ptr" in n or "mut_ptr" in n or "core::fmt" in n):
            for i, a in enumerate(args):
                if atys and i < len(atys) and atys[i] is not None and F.types[atys[i]]["k"] == "ptr":
                    self.need_nonnull(st, a, body, line, "passed to " + n)
        v = ("call", n, tuple(args), (body.id, line))
        if dty is not None:
            self.vtypes[v] = dty
        yield st, v

    def some(self, v):
        return ("agg", "adt", "core::option::Option", 1, (v,))

    def none(self):
        return ("agg", "adt", "core::option::Option", 0, ())

    def ok(self, v):
        return ("agg", "adt", "core::result::Result", 0, (v,))

    def err(self, v):
        return ("agg", "adt", "core::result::Result", 1, (v,))

    def payload(self, st, v):
        return self.proj1(st, v, ("f", 0))

    def model(self, st, n, res, ta, args, depth, body, line, dty, atys):
        """Models for standard functions; returns an iterator of (state, value) or None."""
        F = self.F

        def one(v, s=None):
            return iter([((s or st), v)])

        tail = n.split("::")[-1]
        isopt = "option::Option" in n
        isres = "result::Result" in n
        if "::is_null" in n and "ptr" in n:
            return one(("isnullv", strip_cast(args[0])))
        if n in ("core::ptr::null", "core::ptr::null_mut"):
            return one(("null",))
        if ("const_ptr" in n or "mut_ptr" in n) and tail in ("cast", "cast_mut", "cast_const"):
            return one(args[0])
        if ("const_ptr" in n or "mut_ptr" in n) and tail in ("as_ref", "as_mut"):
            def g():
                for s, x in self.truth(st, ("isnullv", strip_cast(args[0]))):
                    yield s, (self.none() if x else self.some(strip_cast(args[0])))
            return g()
        if "NonNull" in n and tail == "new":
            def g():
                for s, x in self.truth(st, ("isnullv", strip_cast(args[0]))):
                    yield s, (self.none() if x else self.some(strip_cast(args[0])))
            return g()
        if "NonNull" in n and tail in ("as_ptr", "as_ref", "as_mut"):
            a = args[0]
            if tail != "as_ptr" and isinstance(a, tuple) and a[0] == "addr":
                a = self.read(st, a[1])
            return one(a)
        if tail == "eq" and "PartialEq" in n or tail == "ne" and "PartialEq" in n:
            a, b = args
            ra = self.read(st, a[1]) if isinstance(a, tuple) and a[0] == "addr" else a
            rb = self.read(st, b[1]) if isinstance(b, tuple) and b[0] == "addr" else b
            if (ra[0] == "null") != (rb[0] == "null"):
                c = ("isnullv", strip_cast(rb if ra[0] == "null" else ra))
                return one(c if tail == "eq" else ("un", "Not", c))
            if ra[0] == "agg" and rb[0] == "agg" and not ra[4] and not rb[4] and ra[2] == rb[2]:
                return one(("int", int((ra[3] == rb[3]) == (tail == "eq"))))
            for x, y in ((ra, rb), (rb, ra)):
                if y[0] == "agg" and y[1] == "adt" and not y[4] and y[2] in F.adts and F.adts[y[2]]["kind"] == "enum":
                    c = ("isvariant", x, y[3], len(F.adts[y[2]]["v"]))
                    return one(c if tail == "eq" else ("un", "Not", c))
            c = ("bin", "Eq", ra, rb)
            return one(c if tail == "eq" else ("un", "Not", c))
        if n == "alloc::boxed::Box::<T>::new":
            self.fresh += 1
            return one(("box", args[0], ta[0] if ta else None, self.fresh))
        if n in ("alloc::boxed::Box::<T>::into_raw", "alloc::boxed::Box::<T, A>::into_raw"):
            a = args[0]
            return one(("own", a, ta[0] if ta else None))
        if n.startswith("alloc::boxed::Box::<T") and tail == "leak":
            return one(("own", args[0], ta[0] if ta else None))
        if n.startswith("alloc::boxed::Box::<T") and tail == "from_raw":
            s = st.copy()
            self.need_nonnull(s, args[0], body, line, "released (Box::from_raw)")
            s.log = s.log + (("from_raw", strip_cast(args[0]), ta[0] if ta else None, body.nice, line),)
            return one(("boxraw", strip_cast(args[0]), ta[0] if ta else None), s)
        if n == "core::mem::drop":
            s = st.copy()
            s.log = s.log + (("drop", args[0], ta[0] if ta else None, body.nice, line),)
            return one(("agg", "tuple", None, 0, ()), s)
        if n in ("core::mem::forget",) or tail == "forget" and "mem" in n:
            s = st.copy()
            s.log = s.log + (("forget", args[0], ta[0] if ta else None, body.nice, line),)
            return one(("agg", "tuple", None, 0, ()), s)
        if tail == "new" and "ManuallyDrop" in n:
            s = st.copy()
            s.log = s.log + (("forget", args[0], ta[0] if ta else None, body.nice, line),)
            return one(("call", n, tuple(args), (body.id, line)), s)
        RAWUSE = {"from_ptr": 0, "from_raw_parts": 0, "from_raw_parts_mut": 0}
        if tail in RAWUSE and (n.startswith("core::") or n.startswith("alloc::")):
            s = st.copy()
            self.need_nonnull(s, args[0], body, line, "passed to " + tail)
            s.log = s.log + ((tail, strip_cast(args[0]), tuple(args), body.nice, line),)
            return one(("call", n, tuple(args), (body.id, line)), s)
        if (n.startswith("core::ptr::") or "const_ptr" in n or "mut_ptr" in n) and tail in (
                "read", "write", "copy", "copy_nonoverlapping", "swap", "replace", "drop_in_place", "write_bytes",
                "copy_from", "copy_to", "copy_from_nonoverlapping", "copy_to_nonoverlapping", "read_unaligned", "write_unaligned"):
            s = st.copy()
            for i, a in enumerate(args[:2]):
                ty = F.types[atys[i]] if atys and atys[i] is not None else {"k": "?"}
                if ty["k"] == "ptr":
                    self.need_nonnull(s, a, body, line, "passed to ptr::" + tail)
            if tail in ("copy", "copy_nonoverlapping", "copy_from", "copy_from_nonoverlapping", "copy_to", "copy_to_nonoverlapping", "write_bytes"):
                di = 0 if tail in ("copy_from", "copy_from_nonoverlapping", "write_bytes") else 1
                s.log = s.log + (("copied-to", strip_cast(args[di]), tuple(args), body.nice, line),)
            if tail in ("read", "read_unaligned"):
                s.log = s.log + (("ptr-read", strip_cast(args[0]), tuple(args), body.nice, line, atys[0] if atys else None),)
            if tail == "drop_in_place":
                s.log = s.log + (("drop_in_place", strip_cast(args[0]), tuple(args), body.nice, line),)
            if tail in ("write", "write_unaligned") and len(args) == 2:
                lv = self.deref(s, args[0], False, body, line, "written")
                self.write(s, lv, args[1])
            return one(("call", n, tuple(args), (body.id, line)), s)
        if tail == "from_raw" and n.startswith("alloc::"):
            s = st.copy()
            self.need_nonnull(s, args[0], body, line, "passed to " + n)
            s.log = s.log + (("from_raw", strip_cast(args[0]), ta[0] if ta else None, body.nice, line),)
            return one(("boxraw", strip_cast(args[0]), ta[0] if ta else None), s)
        if n == "core::convert::Into::into" and len(ta) >= 2:
            src, dst = ta[0], ta[1]
            if src == dst:
                return one(args[0])
            cand = self.find_from(src, dst)
            if cand is not None and depth < 8:
                return self.exec_body(cand, args, st, depth + 1)
            return None
        if n == "core::convert::From::from" and res and res in F.bodies:
            b = F.bodies[res]
            if self.inline(b):
                return self.exec_body(b, args, st, depth + 1)
            return None
        if n == "core::ops::try_trait::Try::branch":
            t0 = F.types[ta[0]] if ta else None
            def g():
                isr = t0 and "Result" in t0.get("d", "")
                for s, vi in self.variant(st, args[0], 2):
                    good = (vi == 0) if isr else (vi == 1)
                    if good:
                        yield s, ("agg", "adt", "core::ops::control_flow::ControlFlow", 0, (self.payload(s, args[0]),))
                    else:
                        r = self.err(self.payload(s, args[0])) if isr else self.none()
                        yield s, ("agg", "adt", "core::ops::control_flow::ControlFlow", 1, (r,))
            return g()
        if n == "core::ops::try_trait::FromResidual::from_residual":
            a = args[0]
            if a[0] == "agg" and a[2] == "core::result::Result":
                e = a[4][0]
                if len(ta) >= 2:
                    tt, rr = F.types[ta[0]], F.types[ta[1]]
                    if tt["k"] == "adt" and rr["k"] == "adt" and len(tt["a"]) > 1 and len(rr["a"]) > 1 and tt["a"][1] != rr["a"][1]:
                        cand = self.find_from(rr["a"][1], tt["a"][1])
                        if cand is not None and depth < 8:
                            def g():
                                for s, v in self.exec_body(cand, [e], st, depth + 1):
                                    yield s, self.err(v)
                            return g()
                        e = ("call", "From::from", (e,), (body.id, line))
                return one(self.err(e))
            return one(a)
        if tail in ("call_once", "call_mut", "call") and "ops::function" in n:
            a = args[1]
            l = list(a[4]) if isinstance(a, tuple) and a[0] == "agg" else [a]
            return self.invoke(st, args[0], l, depth, body, line)
        if isopt or isres:
            return self.combinator(st, n, tail, isopt, args, depth, body, line, ta)
        return None

    def find_from(self, src, dst):
        F = self.F
        for k, f in F.fns.items():
            if f.get("trait_item") == "core::convert::From::from" or (f.get("trait") or "").endswith("convert::From"):
                if f.get("self") == dst and f.get("in") and f["in"][0] == src and k in F.bodies:
                    return F.bodies[k]
        return None

    def combinator(self, st, n, tail, isopt, args, depth, body, line, ta):
        a0 = args[0]
        GOOD = 1 if isopt else 0

        def byref(v):
            if isinstance(v, tuple) and v[0] == "addr":
                return self.read(st, v[1]), v[1]
            if isinstance(v, tuple) and v[0] == "agg":
                return v, None
            return ("mem", strip_cast(v), ()), ("M", strip_cast(v), ())

        def good(v):
            return self.some(v) if isopt else self.ok(v)

        def bad(s, v):
            return self.none() if isopt else self.err(self.payload(s, v))

        def fork(v=None):
            yield from ((s, vi == GOOD) for s, vi in self.variant(st, a0 if v is None else v, 2))

        if tail in ("is_some", "is_none", "is_ok", "is_err"):
            v, _ = byref(a0)
            want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[tail]
            return iter([(st, ("isvariant", v, want, 2))])
        if tail in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "as_slice"):
            v, lv = byref(a0)

            def g():
                for s, ok in fork(v):
                    if ok:
                        if lv is not None:
                            p = ("addr", (lv[0], lv[1], lv[2] + (("f", 0),)))
                        else:
                            p = ("addr", ("V", self.payload(s, v), ()))
                        if tail in ("as_deref", "as_deref_mut"):
                            p = ("call", n, (p,), (body.id, line))
                        yield s, good(p)
                    else:
                        yield s, bad(s, v)
            return g()
        if tail in ("map", "and_then", "map_err", "or_else", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or",
                    "map_or_else", "ok_or", "ok_or_else", "ok", "err", "unwrap", "expect", "or", "copied", "cloned", "inspect", "inspect_err", "flatten"):
            def g():
                for s, ok in fork():
                    p = self.payload(s, a0) if (ok or not isopt) else None
                    if tail == "map":
                        if ok:
                            for s2, v in self.invoke(s, args[1], [p], depth, body, line):
                                yield s2, good(v)
                        else:
                            yield s, bad(s, a0)
                    elif tail == "and_then":
                        if ok:
                            yield from self.invoke(s, args[1], [p], depth, body, line)
                        else:
                            yield s, bad(s, a0)
                    elif tail == "map_err":
                        if ok:
                            yield s, good(p)
                        else:
                            for s2, v in self.invoke(s, args[1], [p], depth, body, line):
                                yield s2, self.err(v)
                    elif tail == "or_else":
                        if ok:
                            yield s, good(p)
                        else:
                            yield from self.invoke(s, args[1], [] if isopt else [p], depth, body, line)
                    elif tail == "or":
                        yield (s, good(p)) if ok else (s, args[1])
                    elif tail == "unwrap_or":
                        yield s, (p if ok else args[1])
                    elif tail == "unwrap_or_default":
                        yield s, (p if ok else ("call", "Default::default", tuple(ta[:1]), (body.id, line)))
                    elif tail == "unwrap_or_else":
                        if ok:
                            yield s, p
                        else:
                            yield from self.invoke(s, args[1], [] if isopt else [p], depth, body, line)
                    elif tail == "map_or":
                        if ok:
                            yield from self.invoke(s, args[2], [p], depth, body, line)
                        else:
                            yield s, args[1]
                    elif tail == "map_or_else":
                        if ok:
                            yield from self.invoke(s, args[2], [p], depth, body, line)
                        else:
                            yield from self.invoke(s, args[1], [] if isopt else [p], depth, body, line)
                    elif tail == "ok_or":
                        yield s, (self.ok(p) if ok else self.err(args[1]))
                    elif tail == "ok_or_else":
                        if ok:
                            yield s, self.ok(p)
                        else:
                            for s2, v in self.invoke(s, args[1], [], depth, body, line):
                                yield s2, self.err(v)
                    elif tail == "ok":
                        yield s, (self.some(p) if ok else self.none())
                    elif tail == "err":
                        yield s, (self.none() if ok else self.some(p))
                    elif tail in ("unwrap", "expect"):
                        if ok:
                            yield s, p
                        else:
                            self.panics.append((body, line, n, s))
                    elif tail in ("copied", "cloned"):
                        if ok:
                            lv = self.deref(s, p, False, body, line, "")
                            yield s, good(self.read(s, lv) if lv[0] != "V" else lv[1])
                        else:
                            yield s, bad(s, a0)
                    elif tail == "flatten":
                        yield s, (p if ok else bad(s, a0))
                    elif tail in ("inspect", "inspect_err"):
                        run = ok == (tail == "inspect")
                        if run:
                            self.fresh += 1
                            k = (-self.fresh, 0)
                            s = s.copy()
                            s.env[k] = p
                            for s2, v in self.invoke(s, args[1], [("addr", ("L", k, ()))], depth, body, line):
                                yield s2, a0
                        else:
                            yield s, a0
            return g()
        return None


def wrap(v, n):
    bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}[n]
    v &= (1 << bits) - 1
    if n[0] == "i" and v >> (bits - 1):
        v -= 1 << bits
    return v
