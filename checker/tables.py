"""Constant propagation through table initialisers.

Lookup tables are built at first use by straight-line initialisers (lazy_static, once_cell, std LazyLock) or are
constants.  The values they will hold are constants of the program: this module propagates them through the compiler's
intermediate representation of the initialiser, and of the local helper functions it calls, without running anything.
A value it cannot determine is TOP, and a table that contains TOP is reported by the caller.
"""
import mir
from mir import pyval

TOP = ("top",)


class Table:
    """A map under construction; pairs in insertion order."""
    def __init__(self, items=None):
        self.items = list(items or [])

    def __repr__(self):
        return "Table(%d)" % len(self.items)


class Seq:
    """A list, array, vector or iterator over constants."""
    def __init__(self, items, pos=0):
        self.items = list(items)
        self.pos = pos

    def __repr__(self):
        return "Seq(%r)" % (self.items[:3],)


def adt(path, variant, name, fields):
    return ("adt", path, variant, name, list(fields))


def is_adt(v, path=None):
    return isinstance(v, tuple) and len(v) == 5 and v[0] == "adt" and (path is None or v[1] == path or v[1].endswith("::" + path))


def some(v):
    return adt("core::option::Option", 1, "Some", [v])


def none():
    return adt("core::option::Option", 0, "None", [])


def norm(v):
    """A decoded compile-time constant as an abstract value."""
    if isinstance(v, dict):
        if "str" in v:
            return v["str"]
        if "ref" in v:
            return norm(v["ref"])
        if "arr" in v:
            return Seq([norm(x) for x in v["arr"]])
        if "tup" in v:
            return ("tup", [norm(x) for x in v["tup"]])
        if "adt" in v:
            return adt(v["adt"], v["v"], v["n"], [norm(x) for x in v["f"]])
        if "static" in v:
            return ("static", v["static"])
        if "float" in v:
            return ("float", v["float"])
        if "fn" in v:
            return ("fn", v["fn"])
        if "rawbytes" in v:
            b = v["rawbytes"]
            return ("bytes", tuple(b) if isinstance(b, list) else b)
        return TOP
    if isinstance(v, (int, bool)):
        return v
    if isinstance(v, str):
        return v
    return TOP


IDENT = {"from", "into", "to_string", "to_owned", "clone", "deref", "as_ref", "borrow", "as_str", "as_slice", "iter", "into_iter",
         "copied", "cloned", "to_vec", "into_vec", "new", "into_boxed_slice", "index", "deref_mut", "as_mut_slice", "iter_mut", "unsize", "by_ref", "collect", "from_iter", "rev", "as_bytes", "to_str"}
EMPTY = {"new", "with_capacity", "default"}


class Eval:
    def __init__(self, F, budget=400000):
        self.F = F
        self.budget = budget
        self.deps = set()

    def op(self, env, b, o):
        if o["k"] in ("copy", "move"):
            return self.place(env, b, o["p"])
        if "promoted" in o and o["promoted"] is not None:
            pb = self.F.bodies.get(o["promoted"]) if isinstance(o["promoted"], str) else self.F.bodies.get("%s::promoted[%d]" % (b.id.split("::promoted[")[0], o["promoted"]))
            if pb is not None and ("v" not in o or o["v"] is None):
                return self.body(pb, [])
        if o.get("v") is not None:
            v = norm(o["v"])
            if v is not TOP:
                return v
        ty = self.F.types[o["t"]]
        if ty["k"] == "fndef":
            return ("fn", ty.get("res") or ty["d"])
        if ty["k"] == "closure":
            return ("closure", ty["d"], [])
        if o.get("def") and o["def"] in self.F.bodies and self.F.bodies[o["def"]].kind == "const":
            return self.body(self.F.bodies[o["def"]], [])
        if ty["k"] == "tuple" and not ty["a"]:
            return ("tup", [])
        if ty["k"] == "adt":
            return adt(ty["d"], 0, ty["d"].split("::")[-1], [])
        return TOP

    def place(self, env, b, p):
        l, proj = mir.pl(p) if not isinstance(p, (list, tuple)) else (p[0], p[1])
        v = env.get(l, TOP)
        for e in proj:
            v = self.project(env, b, v, e)
        return v

    def project(self, env, b, v, e):
        if v is TOP:
            return TOP
        k = e if isinstance(e, str) else e[0]
        if k == "*":
            return v
        if k in ("f", "field"):
            i = e[1]
            if isinstance(v, tuple) and v[0] == "tup":
                return v[1][i] if i < len(v[1]) else TOP
            if is_adt(v):
                return v[4][i] if i < len(v[4]) else TOP
            if isinstance(v, tuple) and v[0] == "closure":
                return v[2][i] if i < len(v[2]) else TOP
            return TOP
        if k in ("dc", "v", "variant", "downcast"):
            return v
        if k in ("i", "index"):
            i = env.get(e[1], TOP)
            if isinstance(v, Seq) and isinstance(i, int) and i < len(v.items):
                return v.items[i]
            return TOP
        if k == "ci" and not e[3]:
            i = e[1]
            if isinstance(v, Seq) and isinstance(i, int) and i < len(v.items):
                return v.items[i]
            return TOP
        return TOP

    def rv(self, env, b, r):
        k = r["k"]
        if k == "use":
            return self.op(env, b, r["o"])
        if k == "repeat":
            n = r.get("n")
            return Seq([self.op(env, b, r["o"])] * n) if isinstance(n, int) else TOP
        if k in ("ref", "rawptr"):
            return self.place(env, b, r["p"])
        if k == "cast":
            return self.op(env, b, r["o"])
        if k == "agg":
            ops = [self.op(env, b, o) for o in r["ops"]]
            if r["ak"] == "tuple":
                return ("tup", ops)
            if r["ak"] == "array":
                return Seq(ops)
            if r["ak"] == "adt":
                return adt(r["d"], r["v"], r["n"], ops)
            if r["ak"] == "closure":
                return ("closure", r["d"], ops)
            return TOP
        if k == "discr":
            v = self.place(env, b, r["p"])
            if is_adt(v):
                a = self.F.adts.get(v[1])
                if a and v[2] < len(a["v"]):
                    d = a["v"][v[2]].get("discr")
                    return d if d is not None else v[2]
                return v[2]
            return TOP
        if k == "bin":
            a, c = self.op(env, b, r["a"]), self.op(env, b, r["b"])
            if isinstance(a, (int, bool)) and isinstance(c, (int, bool)):
                op = r["op"]
                try:
                    x = {"Add": a + c, "Sub": a - c, "Mul": a * c, "Eq": a == c, "Ne": a != c, "Lt": a < c, "Le": a <= c, "Gt": a > c, "Ge": a >= c,
                         "BitOr": a | c, "BitAnd": a & c, "BitXor": a ^ c}.get(op.replace("WithOverflow", "").replace("Unchecked", ""))
                    if op in ("Shl", "ShlUnchecked"):
                        x = a << c
                    if op in ("Shr", "ShrUnchecked"):
                        x = a >> c
                except Exception:
                    x = None
                if x is None:
                    return TOP
                return ("tup", [x, False]) if op.endswith("WithOverflow") else x
            return TOP
        if k == "un":
            a = self.op(env, b, r["a"] if "a" in r else r["o"])
            if r.get("op") == "Not" and isinstance(a, bool):
                return not a
            if r.get("op") == "Neg" and isinstance(a, int):
                return -a
            if r.get("op") == "PtrMetadata" and isinstance(a, Seq):
                return len(a.items)
            return TOP
        return TOP

    def assign(self, env, b, p, v):
        l, proj = (p[0], p[1])
        if not proj:
            env[l] = v
            return
        cur = env.get(l, TOP)
        for e in proj[:-1]:
            cur = self.project(env, b, cur, e)
        e = proj[-1]
        k = e if isinstance(e, str) else e[0]
        if k in ("f", "field"):
            if isinstance(cur, tuple) and cur[0] in ("tup",) and e[1] < len(cur[1]):
                cur[1][e[1]] = v
                return
            if is_adt(cur) and e[1] < len(cur[4]):
                cur[4][e[1]] = v
                return
        if k == "*" and isinstance(cur, (Seq, Table)):
            if isinstance(v, Seq) and isinstance(cur, Seq):
                cur.items = v.items
                return
        env[l] = TOP

    def body(self, b, args, depth=0):
        self.deps.add(b.id)
        if depth > 12:
            return TOP
        env = {0: ("tup", [])}
        for i, a in enumerate(args):
            env[i + 1] = a
        bb = 0
        while True:
            self.budget -= 1
            if self.budget < 0:
                return TOP
            blk = b.blocks[bb]
            for s in blk["s"]:
                if s["k"] == "=":
                    self.assign(env, b, s["p"], self.rv(env, b, s["r"]))
            t = blk["t"]
            k = t["k"]
            if k == "goto":
                bb = t["t"]
            elif k == "return":
                return env.get(0, TOP)
            elif k == "drop":
                bb = t["t"]
            elif k == "assert":
                bb = t["t"]
            elif k == "switch":
                v = self.op(env, b, t["d"])
                if v is TOP or not isinstance(v, (int, bool)):
                    return TOP
                tgt = self.switch_target(t, v)
                if tgt is None:
                    return TOP
                bb = tgt
            elif k == "call":
                v = self.call(env, b, t, depth)
                self.assign(env, b, t["d"], v)
                if t.get("t") is None:
                    return TOP
                bb = t["t"]
            else:
                return TOP

    def switch_target(self, t, v):
        for x in t["v"]:
            if isinstance(x, (list, tuple)) and int(x[0]) == int(v):
                return x[1]
        return t["o"]

    def call(self, env, b, t, depth):
        f = t.get("f")
        args = [self.op(env, b, o) for o in t["a"]]
        if f is None:
            fp = t.get("fp")
            v = self.op(env, b, fp) if isinstance(fp, dict) else TOP
            return self.apply(v, args, depth)
        name = t.get("res") or f
        return self.named(name, f, args, depth, t, b)

    def apply(self, v, args, depth):
        if isinstance(v, tuple) and v[0] == "closure":
            cb = self.F.bodies.get(v[1])
            return self.body(cb, [v] + args, depth + 1) if cb else TOP
        if isinstance(v, tuple) and v[0] == "fn":
            return self.named(v[1], v[1], args, depth, None, None)
        return TOP

    def named(self, name, f, args, depth, t, b):
        F = self.F
        lb = F.bodies.get(name)
        if lb is not None and lb.kind in ("fn", "closure"):
            return self.body(lb, args, depth + 1)
        nice = F.nice(f)
        ln = nice.split("::")[-1].split("<")[0]
        a0 = args[0] if args else TOP
        dty = F.tys(b.lty(t["d"][0])) if t is not None and not t["d"][1] else ""
        mapdst = "Map<" in dty or "Set<" in dty
        if ln in EMPTY and (not args or ln == "with_capacity"):
            return Table() if mapdst else Seq([])
        if ln in ("call", "call_once", "call_mut") and len(args) == 2:
            aa = args[1][1] if isinstance(args[1], tuple) and args[1][0] == "tup" else [args[1]]
            return self.apply(a0, aa, depth)
        if ln in ("from", "collect", "from_iter") and mapdst:
            return Table(a0.items) if isinstance(a0, (Seq, Table)) else TOP
        if ln == "insert" and isinstance(a0, Table) and len(args) == 3:
            a0.items.append(("tup", [args[1], args[2]]))
            return none()
        if ln == "push" and isinstance(a0, Seq):
            a0.items.append(args[1])
            return ("tup", [])
        if ln in ("extend", "extend_from_slice", "append") and isinstance(a0, (Seq, Table)) and isinstance(args[1], (Seq, Table)):
            a0.items.extend(args[1].items)
            return ("tup", [])
        if ln == "map" and isinstance(a0, (Seq, Table)):
            return Seq([self.apply(args[1], [x], depth) for x in a0.items])
        if ln == "chain" and isinstance(a0, (Seq, Table)) and isinstance(args[1], (Seq, Table)):
            return Seq(a0.items + args[1].items)
        if ln == "flatten" and isinstance(a0, Seq) and all(isinstance(x, Seq) for x in a0.items):
            return Seq([y for x in a0.items for y in x.items])
        if ln == "zip" and isinstance(a0, Seq) and isinstance(args[1], Seq):
            return Seq([("tup", [x, y]) for x, y in zip(a0.items, args[1].items)])
        if ln == "enumerate" and isinstance(a0, Seq):
            return Seq([("tup", [i, x]) for i, x in enumerate(a0.items)])
        if ln in ("into_iter", "iter", "iter_mut") and isinstance(a0, (Seq, Table)):
            return Seq(a0.items) if ln != "into_iter" or not isinstance(a0, Seq) else a0
        if ln in ("keys", "values") and isinstance(a0, Table):
            i = 0 if ln == "keys" else 1
            return Seq([x[1][i] for x in a0.items if isinstance(x, tuple) and x[0] == "tup"])
        if ln == "next" and isinstance(a0, Seq):
            if a0.pos < len(a0.items):
                a0.pos += 1
                return some(a0.items[a0.pos - 1])
            return none()
        if ln == "len" and isinstance(a0, (Seq, Table)):
            return len(a0.items)
        if ln in ("eq", "ne") and len(args) == 2 and all(isinstance(x, (int, str)) for x in args):
            return (args[0] == args[1]) == (ln == "eq")
        if ln in ("unwrap", "expect", "unwrap_or_default") and is_adt(a0) and a0[4]:
            return a0[4][0]
        if ln in ("unbox", "assume_init", "box_new", "write", "init", "exchange_malloc"):
            return a0
        if ln in ("sort", "sort_unstable", "shrink_to_fit", "reserve"):
            return ("tup", [])
        if ln in IDENT and args:
            return a0
        return TOP


class Lookup(Eval):
    """Evaluates functions that look something up in tables known to be constant; TOP where it cannot tell."""
    def __init__(self, F, statics, budget=200000):
        super().__init__(F, budget)
        self.statics = statics

    def named(self, name, f, args, depth, t, b):
        F = self.F
        lb = F.bodies.get(name)
        ln = F.nice(f).split("::")[-1].split("<")[0]
        a = []
        for x in args:
            if isinstance(x, tuple) and x and x[0] == "static":
                x = self.statics.get(x[1], TOP)
            a.append(x)
        a0 = a[0] if a else TOP
        a1 = a[1] if len(a) > 1 else TOP
        if ln == "deref" and isinstance(a0, (Table, Seq)):
            return a0
        if lb is not None and lb.kind in ("fn", "closure"):
            return self.body(lb, a, depth + 1)
        if ln == "discriminant_value" and is_adt(a0):
            return self.disc(a0)
        if ln in ("eq", "ne") and len(a) == 2 and not has_top(a0) and not has_top(a1) and simple(a0) and simple(a1):
            return (key(a0) == key(a1)) == (ln == "eq")
        if isinstance(a0, Table):
            if any(not (isinstance(x, tuple) and x[0] == "tup" and len(x[1]) == 2) or has_top(x[1][0]) for x in a0.items):
                return TOP
            if ln in ("get", "contains_key", "index", "get_key_value") and simple(a1) and not has_top(a1):
                hit = [x for x in a0.items if key(x[1][0]) == key(a1)]
                if ln == "contains_key":
                    return bool(hit)
                if ln == "index":
                    return hit[-1][1][1] if hit else TOP
                if not hit:
                    return none()
                return some(hit[-1][1][1] if ln == "get" else hit[-1])
            if ln in ("iter", "into_iter"):
                return ANYORDER(list(a0.items))
        if isinstance(a0, Seq):
            rest = a0.items[a0.pos:]
            free = isinstance(a0, ANYORDER)
            mk = ANYORDER if free else Seq
            if ln in ("iter", "into_iter") and not free:
                return Seq(list(rest))
            if ln == "rev":
                return mk(rest[::-1])
            if ln in ("filter", "find", "position", "any", "all", "filter_map", "find_map", "map", "take_while", "skip_while"):
                rs = []
                for x in rest:
                    v = self.apply(a1, [x], depth)
                    if v is TOP or v == TOP:
                        return TOP
                    rs.append(v)
                    if not free and (ln == "find" and v is True or ln == "any" and v is True or ln == "find_map" and is_adt(v) and v[4]):
                        break
                if ln == "map":
                    return mk(rs)
                if ln in ("filter_map", "find_map"):
                    if not all(is_adt(v) for v in rs):
                        return TOP
                    got = [v[4][0] for v in rs if v[4]]
                    if ln == "filter_map":
                        return mk(got)
                    if free and len({repr(key(g)) for g in got}) > 1:
                        return TOP
                    return some(got[0]) if got else none()
                if not all(isinstance(v, (bool, int)) for v in rs):
                    return TOP
                if ln == "any":
                    return any(rs)
                if ln == "all":
                    return all(rs)
                got = [x for x, v in zip(rest, rs) if v]
                if ln == "filter":
                    return mk(got)
                if ln == "find":
                    if free and len(got) > 1:
                        return TOP
                    return some(got[0]) if got else none()
                if ln == "position" and not free:
                    i = next((i for i, v in enumerate(rs) if v), None)
                    return some(i) if i is not None else none()
                return TOP
            if ln in ("next", "last", "first") and (not free or len(rest) < 2) and ln != "next":
                return some(rest[0 if ln == "first" else -1]) if rest else none()
            if free and ln not in ("copied", "cloned", "by_ref"):
                return TOP
            if ln == "contains" and simple(a1):
                return any(key(x) == key(a1) for x in rest) if not has_top(rest) and not has_top(a1) else TOP
        if isinstance(a0, str):
            if ln in ("to_ascii_lowercase", "to_lowercase"):
                return a0.lower() if a0.isascii() else TOP
            if ln in ("to_ascii_uppercase", "to_uppercase"):
                return a0.upper() if a0.isascii() else TOP
            if ln == "eq_ignore_ascii_case" and isinstance(a1, str):
                return a0.lower() == a1.lower()
            if ln == "extension":
                return some(a0.rsplit(".", 1)[1]) if "." in a0[1:] else none()
            if ln in ("to_str",):
                return some(a0)
            if ln in ("to_string_lossy",):
                return a0
        if is_adt(a0) and (a0[1].endswith("option::Option") or a0[1].endswith("result::Result")):
            opt = a0[1].endswith("option::Option")
            good = a0[3] in ("Some", "Ok")
            pay = a0[4][0] if a0[4] else TOP
            if ln == "branch":
                return adt("core::ops::control_flow::ControlFlow", 0, "Continue", [pay]) if good else adt("core::ops::control_flow::ControlFlow", 1, "Break", [a0])
            if ln == "from_residual":
                return a0 if opt and b is not None and F.tys(b.lty(t["d"][0])).startswith("std::option::Option") else TOP
            if ln == "filter" and opt:
                if not good:
                    return a0
                v = self.apply(a1, [pay], depth)
                return a0 if v is True or v == 1 and v is not TOP else none() if isinstance(v, (bool, int)) else TOP
            if ln == "map":
                if not good:
                    return a0
                v = self.apply(a1, [pay], depth)
                return adt(a0[1], a0[2], a0[3], [v])
            if ln == "and_then":
                return self.apply(a1, [pay], depth) if good else a0
            if ln == "or":
                return a0 if good else a1
            if ln == "or_else":
                return a0 if good else self.apply(a1, [] if opt else [pay], depth)
            if ln == "unwrap_or":
                return pay if good else a1
            if ln == "unwrap_or_else":
                return pay if good else self.apply(a1, [] if opt else [pay], depth)
            if ln in ("is_some", "is_ok"):
                return good
            if ln in ("is_none", "is_err"):
                return not good
            if ln == "ok":
                return some(pay) if good else none()
            if ln in ("unwrap", "expect"):
                return pay if good else TOP
            if ln not in ("copied", "cloned", "clone", "as_ref", "as_deref"):
                return TOP
            return a0
        if ln in ("rev", "collect", "new", "index", "from_iter", "next", "get"):
            return TOP if ln != "next" and not (isinstance(a0, Seq) and ln in ("collect", "from_iter")) else super().named(name, f, a, depth, t, b)
        return super().named(name, f, a, depth, t, b)

    def disc(self, v):
        ad = self.F.adts.get(v[1])
        if ad and v[2] < len(ad["v"]):
            d = ad["v"][v[2]].get("discr")
            return int(d) if d is not None else v[2]
        return v[2]

    def rv(self, env, b, r):
        if r["k"] == "cast":
            v = self.op(env, b, r["o"])
            if is_adt(v) and r["c"].startswith("IntToInt"):
                return self.disc(v)
            if isinstance(v, tuple) and v[0] == "static":
                return self.statics.get(v[1], TOP)
            return v
        if r["k"] == "discr":
            v = self.place(env, b, r["p"])
            return self.disc(v) if is_adt(v) else TOP
        return super().rv(env, b, r)


class ANYORDER(Seq):
    """Elements in an order that is not known."""


def simple(v):
    return isinstance(v, (str, int, bool)) or is_adt(v) and all(simple(x) for x in v[4]) or isinstance(v, tuple) and v and v[0] == "tup" and all(simple(x) for x in v[1])


class TableInfo:
    def __init__(self, name, body, value, file, line, ty):
        self.name, self.body, self.value, self.file, self.line, self.ty = name, body, value, file, line, ty

    @property
    def pairs(self):
        """Key/value pairs of a map."""
        v = self.value
        if not isinstance(v, Table):
            return None
        out = []
        for x in v.items:
            if isinstance(x, tuple) and x[0] == "tup" and len(x[1]) == 2:
                out.append((x[1][0], x[1][1]))
            else:
                out.append((TOP, TOP))
        return out


def key(v):
    """A hashable form."""
    if isinstance(v, Seq):
        return ("seq",) + tuple(key(x) for x in v.items)
    if isinstance(v, Table):
        return ("table",) + tuple(key(x) for x in v.items)
    if isinstance(v, tuple):
        return tuple(key(x) for x in v)
    if isinstance(v, list):
        return tuple(key(x) for x in v)
    return v


def has_top(v):
    if v is TOP or v == TOP:
        return True
    if isinstance(v, (Seq, Table)):
        return any(has_top(x) for x in v.items)
    if isinstance(v, (tuple, list)):
        return any(has_top(x) for x in v)
    return False


def all_tables(F):
    """Every lazily built static with the constant it will hold: name -> TableInfo."""
    out = {}
    # lazy_static!: impl Deref for NAME { fn deref() { fn __static_ref_initialize() .. } }
    for im in F.impls:
        if im["trait"] != "core::ops::deref::Deref" and im["trait"] != "core::ops::Deref" and not im["trait"].endswith("::Deref"):
            continue
        t = F.types[im["self"]]
        if t["k"] != "adt" or t["d"] not in F.consts:
            continue
        for it in im["items"]:
            ib = F.bodies.get(it[1] + "::__static_ref_initialize")
            if ib is None:
                continue
            out[t["d"]] = (ib, [])
    for k, c in F.consts.items():
        if not c["static"]:
            continue
        ts = F.tys(c["t"])
        if k.startswith("libopenraw::") and ("Lazy<" in ts or "LazyLock<" in ts or "OnceLock<" in ts) and "__stability" not in k:
            ib = F.bodies.get(k + "::{closure#0}")
            if ib is None:
                # the initialiser is a named function: the static's own body casts it
                sb = F.bodies.get(k)
                if sb:
                    for _, _, s in sb.stmts():
                        if s["k"] == "=" and s["r"]["k"] == "cast":
                            o = s["r"]["o"]
                            if o["k"] == "const":
                                ty = F.types[o["t"]]
                                if ty["k"] == "fndef":
                                    ib = F.bodies.get(ty.get("res") or ty["d"])
            if ib is not None:
                out[k] = (ib, [("closure", ib.id, [])] if ib.kind == "closure" else [])
    res = {}
    for k, (ib, args) in out.items():
        ev = Eval(F)
        v = ev.body(ib, args)
        c = F.consts.get(k, {})
        res[k] = TableInfo(k, ib, v, c.get("file", ib.file), c.get("line", ib.line), F.tys(ib.lty(0)))
    return res
