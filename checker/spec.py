"""Specialisation: what a function can do when some of its inputs are known.

Conditional constant propagation over MIR, through calls, closures and the Option/Result combinators, with generic
parameters bound to the types of the call.  Branches whose condition is known are pruned; everything else is explored.
A hook sees every call that remains possible and contributes events; the events of callees are included.
"""
import sys
import mir, cg, tables
from expr import last

sys.setrecursionlimit(20000)
TOP = None


def adtv(path, v, fields=()):
    return ("adt", path, v, tuple(fields))


def some(v):
    return adtv("core::option::Option", 1, (v,))


NONE = adtv("core::option::Option", 0)


def ok(v):
    return adtv("core::result::Result", 0, (v,))


def err(v):
    return adtv("core::result::Result", 1, (v,))


def join(a, b):
    if a == b:
        return a
    if a is TOP or b is TOP:
        return TOP
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == "adt" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            return ("adt", a[1], a[2], tuple(join(x, y) for x, y in zip(a[3], b[3])))
        if a[0] == "tup" and len(a[1]) == len(b[1]):
            return ("tup", tuple(join(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == "clo" and a[1] == b[1] and len(a[2]) == len(b[2]):
            return ("clo", a[1], tuple(join(x, y) for x, y in zip(a[2], b[2])))
        if a[0] == "obj" and a[1] == b[1]:
            da, db = dict(a[2]), dict(b[2])
            return ("obj", a[1], tuple(sorted((k, join(da[k], db[k])) for k in da if k in db)))
    return TOP


def imm(v):
    """A value of tables.py, immutable."""
    if v is tables.TOP:
        return TOP
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, str):
        return ("str", v)
    if tables.is_adt(v):
        return ("adt", v[1], v[2], tuple(imm(x) for x in v[4]))
    if isinstance(v, tuple) and v and v[0] == "tup":
        return ("tup", tuple(imm(x) for x in v[1]))
    if isinstance(v, tuple) and v and v[0] == "fn":
        return ("fn", v[1], ())
    return TOP


IDENT = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "clone", "cloned", "copied", "to_owned", "as_deref", "unsize", "by_ref", "must_use"}
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


ARITH = {}
for _p, _opt in (("checked_", True), ("wrapping_", False), ("saturating_", False)):
    for _n, _f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b), ("div", lambda a, b: a // b if b else None), ("rem", lambda a, b: a % b if b else None)):
        ARITH[_p + _n] = (_opt, _f)


class Spec:
    def __init__(self, F, hook=None, enter=None, limit=60000):
        self.F = F
        self.C = cg.get(F)
        self.hook = hook
        self.enter = enter      # enter(callee, args) -> False: don't follow
        self.memo = {}
        self.active = set()
        self.runs = 0
        self.limit = limit
        self.hit_cycle = False

    # ---- one body under given arguments
    def run(self, bid, args, tenv=()):
        """(value returned or TOP, returns at all, events)"""
        b = self.F.bodies[bid]
        args = tuple(args)[:b.argc] + (TOP,) * max(0, b.argc - len(args))
        key = (bid, args, tenv)
        if key in self.memo:
            return self.memo[key]
        if key in self.active or len(self.active) > 150 or self.runs > self.limit:
            self.hit_cycle = True
            return (TOP, True, frozenset())
        self.active.add(key)
        self.runs += 1
        r = self.body(b, args, dict(tenv))
        self.active.discard(key)
        self.memo[key] = r
        return r

    def body(self, b, args, tenv):
        hard = self.escaped(b)
        env0 = {}
        for i, a in enumerate(args):
            env0[i + 1] = a if (i + 1) not in hard or (isinstance(a, tuple) and a[0] == "obj") else TOP
        states = {0: env0}
        work = [0]
        ev = set()
        ret, returns = "bot", False
        self.last_reached = states
        n = 0
        while work:
            bb = work.pop()
            n += 1
            if n > 20000:
                break
            env = dict(states[bb])
            blk = b.blocks[bb]
            for s in blk["s"]:
                if s["k"] == "=":
                    self.assign(env, b, s["p"], self.rv(env, b, s["r"], tenv), hard)
            t = blk["t"]
            k = t["k"]
            nxt = []
            if k in ("goto", "drop", "assert"):
                nxt = [t["t"]]
            elif k == "return":
                v = env.get(0, TOP)
                ret = v if ret == "bot" else join(ret, v)
                returns = True
            elif k == "switch":
                v = self.op(env, b, t["d"], tenv)
                if isinstance(v, int):
                    tgt = None
                    for x in t["v"]:
                        if int(x[0]) == v:
                            tgt = x[1]
                    nxt = [tgt if tgt is not None else t["o"]]
                else:
                    nxt = list(dict.fromkeys([x[1] for x in t["v"]] + [t["o"]]))
            elif k == "call":
                v, back, e = self.call(env, b, bb, t, tenv)
                ev |= e
                self.assign(env, b, t["d"], v, hard)
                if t.get("t") is not None and back:
                    nxt = [t["t"]]
            for m in nxt:
                if m is None or b.blocks[m].get("cleanup"):
                    continue
                if m not in states:
                    states[m] = dict(env)
                    work.append(m)
                else:
                    old = states[m]
                    new = {}
                    for l in set(old) | set(env):
                        if l in old and l in env:
                            new[l] = join(old[l], env[l])
                        else:
                            new[l] = TOP if True else None
                    if new != old:
                        states[m] = new
                        if m not in work:
                            work.append(m)
        return (TOP if ret == "bot" else ret, returns, frozenset(ev))

    _esc = {}

    def escaped(self, b):
        """Locals whose address is taken mutably: their contents are not tracked."""
        k = (id(self.F), b.id)
        if k not in self._esc:
            m = set()
            for bb in b.reach:
                for s in b.blocks[bb]["s"]:
                    if s["k"] == "=":
                        r = s["r"]
                        if ((r["k"] == "ref" and r["mut"]) or (r["k"] == "rawptr" and r.get("mut", True))) and "*" not in r["p"][1]:
                            m.add(r["p"][0])
            self._esc[k] = m
        return self._esc[k]

    def assign(self, env, b, p, v, hard):
        l, proj = p[0], p[1]
        if l in hard:
            env[l] = TOP
            return
        if not proj:
            env[l] = v
            return
        if len(proj) == 1 and proj[0] != "*" and proj[0][0] == "f":
            cur = env.get(l, TOP)
            i = proj[0][1]
            if isinstance(cur, tuple) and cur[0] == "tup" and i < len(cur[1]):
                x = list(cur[1])
                x[i] = v
                env[l] = ("tup", tuple(x))
                return
            if isinstance(cur, tuple) and cur[0] == "adt" and i < len(cur[3]):
                x = list(cur[3])
                x[i] = v
                env[l] = ("adt", cur[1], cur[2], tuple(x))
                return
        if "*" in proj:
            return  # behind a reference: tracked values are only read through shared ones
        env[l] = TOP

    # ---- values
    def op(self, env, b, o, tenv):
        if o["k"] in ("copy", "move"):
            return self.place(env, b, o["p"])
        ty = self.F.types[o["t"]]
        if ty["k"] == "fndef":
            return ("fn", ty.get("res") or ty["d"], tuple(ty.get("a") or ()))
        if ty["k"] == "closure":
            return ("clo", ty["d"], ())
        e = tables.Eval(self.F, 4000)
        try:
            v = imm(e.op({}, b, o))
        except Exception:
            v = TOP
        if isinstance(v, tuple) and v[0] == "adt" and not v[3]:
            a = self.F.adts.get(v[1])
            if a is not None and v[2] < len(a["v"]) and a["v"][v[2]]["f"] and o.get("v") is None:
                return TOP
        return v

    def place(self, env, b, p):
        v = env.get(p[0], TOP)
        for e in p[1]:
            if v is TOP:
                return TOP
            if e == "*":
                continue
            k = e[0]
            if k == "f":
                i = e[1]
                if v[0] == "tup" if isinstance(v, tuple) else False:
                    v = v[1][i] if i < len(v[1]) else TOP
                elif isinstance(v, tuple) and v[0] == "adt":
                    v = v[3][i] if i < len(v[3]) else TOP
                elif isinstance(v, tuple) and v[0] == "clo":
                    v = v[2][i] if i < len(v[2]) else TOP
                elif isinstance(v, tuple) and v[0] == "obj":
                    v = dict(v[2]).get(i, TOP)
                else:
                    return TOP
            elif k == "dc":
                continue
            else:
                return TOP
        return v

    def discr(self, v):
        if isinstance(v, tuple) and v[0] == "adt":
            a = self.F.adts.get(v[1])
            if a and v[2] < len(a["v"]):
                d = a["v"][v[2]].get("discr")
                return int(d) if d is not None else v[2]
            return v[2]
        return TOP

    def rv(self, env, b, r, tenv):
        k = r["k"]
        if k == "use":
            return self.op(env, b, r["o"], tenv)
        if k in ("ref", "rawptr"):
            return self.place(env, b, r["p"])
        if k == "cast":
            v = self.op(env, b, r["o"], tenv)
            if isinstance(v, tuple) and v[0] == "adt" and r["c"].startswith("IntToInt"):
                return self.discr(v)
            if isinstance(v, int) and self.F.types[r["t"]]["k"] == "adt":
                a = self.F.adts.get(self.F.types[r["t"]]["d"])
                for i, x in enumerate(a["v"] if a and a["kind"] == "enum" else []):
                    if not x["f"] and int(x.get("discr") if x.get("discr") is not None else i) == v:
                        return ("adt", self.F.types[r["t"]]["d"], i, ())
                return TOP
            return v
        if k == "agg":
            ops = tuple(self.op(env, b, o, tenv) for o in r["ops"])
            if r["ak"] == "tuple":
                return ("tup", ops)
            if r["ak"] == "adt":
                return ("adt", r["d"], r["v"], ops)
            if r["ak"] == "closure":
                return ("clo", r["d"], ops)
            return TOP
        if k == "discr":
            return self.discr(self.place(env, b, r["p"]))
        if k == "bin":
            a, c = self.op(env, b, r["a"], tenv), self.op(env, b, r["b"], tenv)
            op = r["op"].replace("Unchecked", "")
            if isinstance(a, int) and isinstance(c, int):
                w = op.endswith("WithOverflow")
                op = op.replace("WithOverflow", "")
                try:
                    x = {"Add": lambda: a + c, "Sub": lambda: a - c, "Mul": lambda: a * c, "Eq": lambda: int(a == c), "Ne": lambda: int(a != c), "Lt": lambda: int(a < c), "Le": lambda: int(a <= c),
                         "Gt": lambda: int(a > c), "Ge": lambda: int(a >= c), "BitOr": lambda: a | c, "BitAnd": lambda: a & c, "BitXor": lambda: a ^ c,
                         "Shl": lambda: a << c, "Shr": lambda: a >> c, "Div": lambda: a // c, "Rem": lambda: a % c}[op]()
                except Exception:
                    return TOP
                return ("tup", (x, 0)) if w else x
            if op == "BitAnd" and (a == 0 or c == 0):
                return 0
            if op == "BitOr" and (a == 1 or c == 1) and self.isbool(b, r["a"]):
                return 1
            return TOP
        if k == "un":
            a = self.op(env, b, r["a"] if "a" in r else r["o"], tenv)
            if r.get("op") == "Not" and isinstance(a, int) and self.isbool(b, r["a"] if "a" in r else r["o"]):
                return 1 - a
            if r.get("op") == "Neg" and isinstance(a, int):
                return -a
        return TOP

    def isbool(self, b, o):
        t = b.op_ty(o)
        return t is not None and self.F.types[t]["k"] == "bool"

    # ---- types
    def tyres(self, t, tenv):
        """The concrete type id a (possibly generic) type stands for."""
        x = self.F.types[t]
        if x["k"] == "param":
            return tenv.get(x["s"])
        return t

    def peel(self, t):
        x = self.F.types[t]
        while x["k"] in ("ref", "ptr"):
            t = x["t"]
            x = self.F.types[t]
        return t

    def impl_for(self, trait, tyid, titem):
        for im in self.F.impls:
            if im["trait"] == trait and self.F.tys(im["self"]) == self.F.tys(tyid):
                for n, item, ti in im["items"]:
                    if ti == titem:
                        return item
                return "default"
        return None

    def callees(self, t, tenv):
        """[(function, type bindings)] the call can reach."""
        F = self.F
        f, res = t.get("f"), t.get("res")
        if f is None:
            return []
        if res and res != "virtual" and res not in F.impl_of:
            ra = t.get("ra") or []
            return [(res, self.bind(res, ra, tenv))]
        tr = t.get("trait")
        ta = t.get("ta") or []
        if tr and ta:
            st = self.tyres(ta[0], tenv)
            if st is not None and F.types[st]["k"] not in ("dyn", "param"):
                it = self.impl_for(tr, self.peel(st), f) or self.impl_for(tr, st, f)
                if it == "default":
                    return [(f, self.bind(f, ta, tenv))]
                if it:
                    own = self.own_params(it)
                    return [(it, self.bind_own(it, ta, tenv))]
        return [(x, ()) for x in self.C.targets_def(res, f, tr)] or [(res or f, ())]

    def own_params(self, f):
        b = self.F.bodies.get(f)
        return b.j.get("g", []) if b else []

    def bind(self, f, ra, tenv):
        b = self.F.bodies.get(f)
        if b is None:
            return ()
        g = b.j.get("g", [])
        out = []
        for n, t in zip(g, ra):
            c = self.tyres(t, tenv)
            if c is not None:
                out.append((n, c))
        return tuple(out)

    def bind_own(self, f, ta, tenv):
        b = self.F.bodies.get(f)
        if b is None:
            return ()
        g = b.j.get("g", [])
        k = min(len(g), len(ta) - 1)
        out = []
        for n, t in zip(g[len(g) - k:], ta[len(ta) - k:]):
            c = self.tyres(t, tenv)
            if c is not None:
                out.append((n, c))
        return tuple(out)

    # ---- calls
    def call(self, env, b, bb, t, tenv):
        F = self.F
        args = tuple(self.op(env, b, a, tenv) for a in t["a"])
        ev = set()
        f = t.get("f")
        if f is None:
            fv = self.place(env, b, t["fp"]["p"]) if isinstance(t.get("fp"), dict) and t["fp"].get("p") else TOP
            r, back, e = self.apply(fv, args, tenv)
            return r, back, e
        n = last(F.nice(t.get("res") or f))
        # calling a closure or function value
        if n in ("call", "call_mut", "call_once") and "ops::function" in f and args:
            a = args[1][1] if len(args) > 1 and isinstance(args[1], tuple) and args[1][0] == "tup" else ()
            if args[0] is not TOP:
                return self.apply(args[0], a, tenv)
        rv, back, first = TOP, False, True
        for g, te in self.callees(t, tenv):
            if self.hook:
                h = self.hook(self, b, bb, t, g, args, dict(te), tenv)
                if h:
                    ev |= set(h)
            if g in F.bodies and F.bodies[g].kind in ("fn", "closure"):
                if self.enter and self.enter(g, args) is False:
                    r, bk = TOP, True
                else:
                    r, bk, e = self.run(g, args, tuple(sorted(te)))
                    ev |= e
            else:
                r, bk, e = self.model(g, n, args, b, t, tenv)
                ev |= e
            rv = r if first else join(rv, r)
            back = back or bk
            first = False
        return rv, (back if not first else True), frozenset(ev)

    def apply(self, fv, args, tenv):
        """Call a closure or function value."""
        if isinstance(fv, tuple) and fv[0] == "clo" and fv[1] in self.F.bodies:
            return self.run(fv[1], (fv,) + tuple(args), tuple(sorted(tenv.items())))
        if isinstance(fv, tuple) and fv[0] == "fn":
            if fv[1] in self.F.bodies:
                return self.run(fv[1], args, self.bind(fv[1], fv[2], tenv))
            nm = last(self.F.nice(fv[1]))
            if nm in ("Some",):
                return some(args[0]) if args else TOP, True, frozenset()
            if nm in IDENT or nm in ("from", "into"):
                return (args[0] if args else TOP), True, frozenset()
        return TOP, True, frozenset()

    def model(self, g, n, args, b, t, tenv):
        a0 = args[0] if args else TOP
        none = frozenset()
        if n in IDENT and len(args) == 1:
            return a0, True, none
        if n in ("into", "from") and len(args) == 1:
            at, rt = b.op_ty(t["a"][0]), b.place_ty(t["d"])
            if at == rt or isinstance(a0, int):
                return a0, True, none
            return TOP, True, none
        if n in CMP and len(args) == 2:
            x, y = args
            if isinstance(x, int) and isinstance(y, int):
                return int(CMP[n](x, y)), True, none
            if n in ("eq", "ne") and x is not TOP and y is not TOP and self.simple(x) and self.simple(y):
                return int((x == y) == (n == "eq")), True, none
            return TOP, True, none
        if n == "size_of":
            ra = t.get("ra") or t.get("ta") or []
            c = self.tyres(ra[0], tenv) if ra else None
            return (self.sizeof(c) if c is not None else TOP), True, none
        if n == "discriminant_value":
            return self.discr(a0), True, none
        m = ARITH.get(n)
        if m and "::num::" in g and len(args) == 2 and isinstance(a0, int) and isinstance(args[1], int):
            v = m[1](a0, args[1])
            if v is None or not 0 <= v < 1 << 31:
                return TOP, True, none
            return (some(v) if m[0] else v), True, none
        if n in ("panic", "panic_fmt", "unreachable_display", "unreachable_default_msg", "panic_display", "unwrap_failed", "expect_failed", "assert_failed", "panic_explicit"):
            return TOP, False, none
        if n == "branch" and isinstance(a0, tuple) and a0[0] == "adt":
            opt = a0[1].endswith("Option")
            good = (a0[2] == 1) if opt else (a0[2] == 0)
            if good:
                return adtv("core::ops::control_flow::ControlFlow", 0, a0[3]), True, none
            return adtv("core::ops::control_flow::ControlFlow", 1, (a0,)), True, none
        if n == "from_residual":
            rt = self.F.types[b.place_ty(t["d"])]
            if rt["k"] == "adt" and rt["d"].endswith("Option"):
                return NONE, True, none
            if rt["k"] == "adt" and rt["d"].endswith("Result"):
                return err(TOP), True, none
            return TOP, True, none
        # combinators
        isopt = isinstance(a0, tuple) and a0[0] == "adt" and a0[1].endswith("option::Option")
        isres = isinstance(a0, tuple) and a0[0] == "adt" and a0[1].endswith("result::Result")
        owner = g
        comb = "::option::" in g or "::result::" in g or "bool" in g
        if comb and a0 is not TOP and (isopt or isres):
            good = (a0[2] == 1) if isopt else (a0[2] == 0)
            pay = a0[3][0] if a0[3] else TOP
            wrap = some if isopt else ok
            f1 = args[1] if len(args) > 1 else TOP
            if n in ("ok", "err") and isres:
                return (some(pay) if good == (n == "ok") else NONE), True, none
            if n in ("ok_or", "ok_or_else") and isopt:
                if good:
                    return ok(pay), True, none
                if n == "ok_or":
                    return err(f1), True, none
                r, bk, e = self.apply(f1, (), tenv)
                return err(r), bk, e
            if n == "map":
                if not good:
                    return a0, True, none
                r, bk, e = self.apply(f1, (pay,), tenv)
                return wrap(r), bk, e
            if n == "and_then":
                if not good:
                    return a0, True, none
                return self.apply(f1, (pay,), tenv)
            if n == "map_err":
                if good:
                    return a0, True, none
                r, bk, e = self.apply(f1, (pay,), tenv)
                return err(r), bk, e
            if n in ("unwrap", "expect", "unwrap_unchecked"):
                return (pay, True, none) if good else (TOP, False, none)
            if n == "unwrap_or":
                return (pay if good else f1), True, none
            if n in ("unwrap_or_else",):
                if good:
                    return pay, True, none
                return self.apply(f1, (pay,) if isres else (), tenv)
            if n == "or_else":
                if good:
                    return a0, True, none
                return self.apply(f1, (pay,) if isres else (), tenv)
            if n == "or":
                return (a0 if good else f1), True, none
            if n in ("is_some", "is_ok"):
                return int(good), True, none
            if n in ("is_none", "is_err"):
                return int(not good), True, none
            if n == "map_or" and len(args) == 3:
                if not good:
                    return f1, True, none
                return self.apply(args[2], (pay,), tenv)
            if n == "map_or_else" and len(args) == 3:
                return self.apply(args[2], (pay,), tenv) if good else self.apply(f1, (pay,) if isres else (), tenv)
            if n == "filter":
                if not good:
                    return a0, True, none
                r, bk, e = self.apply(f1, (pay,), tenv)
                if r == 1:
                    return a0, bk, e
                if r == 0:
                    return NONE, bk, e
                return TOP, bk, e
            if n in ("unwrap_or_default",):
                return (pay if good else TOP), True, none
        # anything else: the closures it is given may be called with anything
        ev = set()
        for x in args:
            for c in self.closures_in(x):
                r, bk, e = self.apply(c, (TOP,) * 8, tenv)
                ev |= e
        return TOP, True, frozenset(ev)

    def sizeof(self, t):
        x = self.F.types[t]
        w = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "f32": 4, "f64": 8, "u128": 16, "i128": 16, "bool": 1, "char": 4}
        if x["s"] in w:
            return w[x["s"]]
        if x["k"] == "array":
            e = self.sizeof(x["t"])
            n = x.get("len")
            return e * n if isinstance(e, int) and isinstance(n, int) else TOP
        if x["k"] == "adt":
            a = self.F.adts.get(x["d"])
            if a and a["kind"] == "struct":
                fs = [self.sizeof(f["t"]) for f in a["v"][0]["f"]]
                if fs and all(isinstance(f, int) for f in fs) and len(set(fs)) == 1:
                    return sum(fs)
        return TOP

    def closures_in(self, x):
        if isinstance(x, tuple):
            if x[0] in ("clo", "fn"):
                yield x
            elif x[0] in ("adt",):
                for y in x[3]:
                    yield from self.closures_in(y)
            elif x[0] == "tup":
                for y in x[1]:
                    yield from self.closures_in(y)

    def simple(self, x):
        if isinstance(x, int):
            return True
        if isinstance(x, tuple) and x[0] == "str":
            return True
        if isinstance(x, tuple) and x[0] == "adt":
            return all(self.simple(y) for y in x[3])
        return False
