"""R01: no file content can trigger a deliberate panic."""
import json, os
import cells, cg, ctx, inter, late, mods, values
from bounds import B
from expr import X, last, NEG
from ranges import Ranges
from term import callee

UNWRAP = {"unwrap": "ok", "expect": "ok", "unwrap_err": "notok", "expect_err": "notok"}
DEBUG = ("$crate::assert", "$crate::assert_eq", "$crate::assert_ne", "debug_assert", "debug_assert_eq", "debug_assert_ne")

# Panics that cannot happen for a reason outside what the rules below can see, each with the reason.  The key is the file,
# the kind of panic and where the value comes from; the number is how many such places were looked at.
REVIEWED = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "panics.json")))


def debug_only(t):
    e = t.get("exp") or ""
    return e.startswith("macro:") and e[6:] in DEBUG


def source(F, x, e, n=0):
    """Where an unwrapped value comes from: the names of the calls it went through."""
    if n > 6:
        return ".."
    k = e[0]
    if k == "call" and len(e) > 2:
        return "%s(%s)" % (e[1], source(F, x, e[2], n + 1)) if e[1] in ("ok", "branch", "map", "map_err", "and_then", "cloned", "copied") else e[1]
    if k == "call@":
        return last(F.nice(e[2])) if e[2] != "virtual" else last(F.nice(x.b.blocks[e[1]]["t"].get("f") or "?"))
    if k == "pure":
        return last(F.nice(e[1]))
    if k in ("some", "down"):
        return source(F, x, e[1], n + 1)
    if k in ("p", "l"):
        return x.b.lname(e[1]) or ("argument" if k == "p" else "value")
    if k == "f":
        return "field %s" % e[2]
    if k == "idx":
        return "%s[]" % source(F, x, e[1], n + 1)
    return k


class Panics:
    def __init__(self, F):
        self.F = F
        self.C = cg.get(F)
        self.G = ctx.get(F)
        self.cells = cells.get(F, self.C)
        self.late = self.two_phase()
        self.V = values.Values(F, self.C, set(self.late))
        self.live = sorted({n[0] for n in self.G.nodes()}, key=str)

    # ------------------------------------------------------------ inventory
    def sites(self):
        """(body, block, kind, operand or None)"""
        F = self.F
        for k in self.live:
            b = F.bodies[k]
            for bb in sorted(b.reach):
                t = b.blocks[bb]["t"]
                if t["k"] != "call":
                    continue
                f = callee(t) or ""
                n = last(F.nice(f))
                for a in t["a"]:  # unwrap passed on as a function
                    if a.get("k") == "const":
                        ty = F.types[a["t"]]
                        if ty["k"] == "fndef" and last(F.nice(ty.get("res") or ty["d"])) in UNWRAP and not (ty.get("res") or ty["d"]).startswith("libopenraw"):
                            yield b, bb, t, "unwrap", None
                if f in F.bodies:
                    continue
                if n in UNWRAP and t["a"] and (f.startswith("core::option") or f.startswith("core::result")):
                    yield b, bb, t, n, t["a"][0]
                elif t.get("t") is None and f:
                    yield b, bb, t, n, None

    # ------------------------------------------------------------ fields that get their value in a second step
    def two_phase(self):
        """{(type, field): (constructions with the placeholder, methods that replace it)} for run-time-checked fields of an
        enumeration first set to a placeholder."""
        F = self.F
        out = {}
        M = mods.get(F)
        cons, _ = M.constructions()
        for d, a in F.adts.items():
            if a["kind"] != "struct" or not a.get("local", True) or d not in cons:
                continue
            for i, fl in enumerate(a["v"][0]["f"]):
                if fl.get("t") is None:
                    continue
                k = F.types[fl["t"]]
                if k["k"] != "adt" or k["d"].split("::")[-1] not in ("RefCell", "Cell") or not k["a"]:
                    continue
                e = F.types[k["a"][0]]
                if e["k"] != "adt" or e["d"] not in F.adts or F.adts[e["d"]]["kind"] != "enum" or any(v["f"] for v in F.adts[e["d"]]["v"]):
                    continue
                cs = []
                for cb, cbb, agg in cons[d]:
                    v = X.of(F, cb).op(agg["ops"][i])
                    if v[0] == "call@" and last(F.nice(v[2])) == "new" and v[3][0] == "agg":
                        cs.append((cb, cbb))
                if cs and len(cs) == len(cons[d]):
                    ls = self.loaders(d, i)
                    if ls:
                        out[(d, i)] = (cs, ls)
        return out

    def replaces(self, b, fld):
        """Blocks of b that store into the field of self."""
        out = []
        for bb, t in b.calls():
            if last(self.F.nice(callee(t) or "?")) in ("replace", "set") and t["a"] and self.field_of(b, t["a"][0]) == fld:
                out.append(bb)
            if last(self.F.nice(callee(t) or "?")) in ("borrow_mut", "get_mut") and t["a"] and not t["d"][1] and self.field_of(b, t["a"][0]) == fld:
                out += [sb for sb, _ in values.stores(self.F, b, t["d"][0]) or ()]
        return out

    def field_of(self, b, o, n=0):
        if o["k"] not in ("copy", "move") or n > 6:
            return None
        p = o["p"]
        if p[1] and p[1][-1] != "*":
            fs, t = mods.path_fields(self.F, b, p)
            return fs[-1] if fs else None
        d = b.defs.get(p[0], [])
        if len(d) == 1 and d[0][2]["k"] in ("ref", "rawptr"):
            return self.field_of(b, {"k": "copy", "p": d[0][2]["p"]}, n + 1)
        if len(d) == 1 and d[0][2]["k"] == "use":
            return self.field_of(b, d[0][2]["o"], n + 1)
        return None

    def loaders(self, d, i):
        """Methods returning a Result that have stored into the field whenever they succeed."""
        F = self.F
        out = set()
        for k, b in F.bodies.items():
            if b.kind != "fn" or self.G.self_of(k) != d:
                continue
            rs = self.replaces(b, (d, i))
            x = X.of(F, b)
            if rs and x.opt_kind(b.lty(0)) and self.stored_when_ok(b, x, rs):
                out.add(k)
        return out

    def stored_when_ok(self, b, x, rs):
        """Every way to a usable result passes one of the blocks."""
        good = {"option": 1, "result": 0, "flow": 0}[x.opt_kind(b.lty(0))]
        seen, st = {0}, [0]
        while st:
            n = st.pop()
            if n in rs:
                continue
            for m in b.succ[n]:
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        for db, i, rv in b.defs.get(0, []):
            if db not in seen or db in rs:
                continue
            if rv["k"] == "agg" and rv.get("v") != good:
                continue
            if rv["k"] == "call" and last(self.F.nice(callee(rv) or "?")) == "from_residual":
                continue
            return False
        return True

    # ------------------------------------------------------------ why a panic can't happen
    def why(self, b, bb, t, kind, o):
        F = self.F
        x = X.of(F, b)
        if kind in UNWRAP and o is not None:
            e = x.op(o)
            if self.dump_write(b, o):
                return "dump"
            want = UNWRAP[kind]
            g = self.get_site(b, o)
            if g and want == "ok" and self.cells.filled(b, g[0], g[1]):
                return "cell"
            if inter.prove_multi(F, self.C, b, bb, (e,), lambda B_, es: self.is_good(B_, es[0], want)):
                return "tested"
            if self.captured(b, bb, e, want):
                return "tested"
            return None
        if debug_only(t):
            return "debug"
        if (t.get("exp") or "").startswith("macro:multiversion"):
            return "dispatch"
        if self.impossible(b, bb, x):
            return "excluded"
        return None

    def is_good(self, B_, e, want, n=0):
        """The facts say the Option or Result is what the unwrap needs."""
        if (want, e) in B_.facts:
            return True
        if n > 4:
            return False
        if want == "ok":
            if e[0] == "agg" and e[1].split("::")[-1] in ("Some", "Ok"):
                return True
            m = e[1] if e[0] == "call" else last(self.F.nice(e[2])) if e[0] == "call@" and len(e) > 4 else None
            if m in ("or_else", "or") and self.alternative(B_, e):
                return True
            if e[0] == "call@" and e[2] in self.F.bodies and any(f[0] == want and f[1][0] == "call@" and f[1][2:] == e[2:] for f in B_.facts) and self.repeatable(e[2]):
                return True
            if e[0] == "call":
                if m in ("ok", "map", "map_err", "ok_or", "ok_or_else", "copied", "cloned", "as_ref", "branch") and len(e) > 2:
                    return self.is_good(B_, e[2], want, n + 1)
                if m in ("first", "last") and len(e) == 3:
                    return B_.lb(B_.x.length(e[2])) >= 1
                if m == "get" and len(e) == 4 and not (e[3][0] == "agg"):
                    return B_.lt(e[3], B_.x.length(e[2]))
                if m == "checked_sub":
                    return B_.le(e[3], e[2])
                if m in ("checked_div", "checked_rem"):
                    return B_.nonzero(e[3])
        return False

    def alternative(self, B_, e):
        """The alternative given to or, or what the closure given to or_else returns, is always good."""
        if e[-1][0] == "agg" and e[-1][1].split("::")[-1] in ("Some", "Ok"):
            return True
        if e[0] != "call@":
            return False
        ty = B_.x.b.op_ty(B_.x.b.blocks[e[1]]["t"]["a"][-1])
        k = self.F.types[ty] if ty is not None else {}
        cb = self.F.bodies.get(k.get("d"))
        if cb is None or not cb.defs.get(0):
            return False
        kind = X.of(self.F, cb).opt_kind(cb.lty(0))
        return all(rv["k"] == "agg" and rv.get("v") == (1 if kind == "option" else 0) for _, _, rv in cb.defs[0])

    def repeatable(self, f):
        """Called again with the same arguments it gives the same answer: it only looks at plain data."""
        fi = self.F.fns.get(f)
        return fi is not None and all(self.frozen(t, 0) for t in fi["in"]) and self.G.calls is not None and not any(
            callee(t) not in self.F.bodies and last(self.F.nice(callee(t) or "?")) not in ("deref", "len", "is_empty", "as_ref", "get", "is_some", "is_none") for _, t in self.F.bodies[f].calls())

    def frozen(self, t, n):
        k = self.F.types[t]
        if n > 6:
            return False
        if k["k"] in ("ref", "slice", "array"):
            return not k.get("mut") and self.frozen(k["t"], n + 1)
        if k["k"] in ("bool", "char", "int", "float", "str"):
            return True
        if k["k"] == "tuple":
            return all(self.frozen(a, n + 1) for a in k["a"])
        if k["k"] == "adt":
            if k["d"] in self.F.adts and self.F.adts[k["d"]].get("local", True):
                return all(self.frozen(fl["t"], n + 1) for v in self.F.adts[k["d"]]["v"] for fl in v["f"] if fl.get("t") is not None)
            return not any(w in k["d"] for w in ("Cell", "Mutex", "Atomic", "Once", "RwLock", "Rc")) and all(self.frozen(a, n + 1) for a in k["a"])
        return False

    def captured(self, b, bb, e, want):
        """The value was captured by a closure made where it is known to be good."""
        if b.kind != "closure" or not (e[0] == "f" and e[1] == ("p", 1)):
            return False
        ms = self.V.made(b.id)
        for pb, pbb, agg in ms:
            if e[2] >= len(agg["ops"]):
                return False
            px = X.of(self.F, pb)
            if not inter.prove_multi(self.F, self.C, pb, pbb, (px.op(agg["ops"][e[2]]),), lambda B_, es: self.is_good(B_, es[0], want)):
                return False
        return bool(ms)

    def dump_write(self, b, o):
        """The result of writing to the output the caller of a dump passed in."""
        d = b.defs.get(o["p"][0], []) if o["k"] in ("copy", "move") and not o["p"][1] else []
        if len(d) == 1 and d[0][2]["k"] == "call":
            f = d[0][2].get("f") or ""
            return f.startswith("alloc::io::write::Write::") or f.startswith("std::io::Write::") or "io::write::Write::" in f
        return False

    def get_site(self, b, o, n=0):
        """(block, cell) of the read of a cell the operand is the result of."""
        if o["k"] not in ("copy", "move") or o["p"][1] or n > 6:
            return None
        d = b.defs.get(o["p"][0], [])
        if len(d) != 1:
            return None
        r = d[0][2]
        if r["k"] == "use":
            return self.get_site(b, r["o"], n + 1)
        if r["k"] == "call" and r["a"]:
            m = last(self.F.nice(callee(r) or "?"))
            if m in ("get", "get_mut"):
                k = self.cells.cell_of(b, r["a"][0])
                return (d[0][0], k) if k else None
            if m in ("map", "as_ref", "as_deref", "copied", "cloned", "as_mut"):
                return self.get_site(b, r["a"][0], n + 1)
        return None

    def impossible(self, b, bb, x):
        """The branches that lead here contradict what the tested values can be."""
        F = self.F
        subj = {}
        for f in x.facts(bb):
            if f[0] in ("Eq", "Ne", "in", "Ge", "Le", "Lt", "Gt") and isinstance(f[1], tuple) and f[1]:
                if f[1][0] == "discr":
                    subj[f[1][1]] = f[1][2]
        for e, ty in subj.items():
            _, k = mods.strip(F, ty)
            if k["k"] == "adt" and k["d"] in F.adts and F.adts[k["d"]]["kind"] == "enum" and not x.opt_kind(ty):
                if self.V.at(b, bb, e, k["d"]) == set():
                    return True
                if not self.flows_to(b, bb, ("discr", e, ty), F.adts[k["d"]]):
                    return True
        # values of integers, following the branches
        ints = {}
        for s, m in x.dom_edges(bb):
            t = b.blocks[s]["t"]
            if t["k"] == "switch":
                e = x.op(t["d"])
                ty = b.op_ty(t["d"])
                if ty is not None and F.types[ty]["k"] == "int" and e[0] in ("p", "l", "f"):
                    ints[e] = ty
        for e in ints:
            if not Ranges(F, b, e, ((0, 1 << 64),)).get(bb):
                return True
        # a comparison that is known to go the other way
        for s, m in x.dom_edges(bb):
            if b.blocks[s]["t"]["k"] != "switch":
                continue
            for f in x.edge_facts(s, m):
                if f[0] in NEG and not (f[1][0] == "discr"):
                    if inter.prove_multi(F, self.C, b, s, (f[1], f[2]), lambda B_, es: refuted(B_, f[0], *es)):
                        return True
        return False

    def flows_to(self, b, bb, e, adt):
        ds = [int(v["discr"]) for v in adt["v"]]
        return Ranges(self.F, b, e, tuple((d, d) for d in sorted(ds))).get(bb)


def refuted(B_, op, a, c):
    if op == "Lt":
        return B_.le(c, a)
    if op == "Ge":
        return B_.lt(a, c)
    if op == "Le":
        return B_.lt(c, a)
    if op == "Gt":
        return B_.le(a, c)
    if op == "Ne":
        return B_.le(a, c) and B_.le(c, a)
    if op == "Eq":
        return B_.lt(a, c) or B_.lt(c, a)
    return False


def run(F, R):
    R.rule("panic", "every unwrap, expect, assertion, panic and unreachable marker that can run is one no file content reaches: the cell it reads has been filled, "
           "the value has been tested, or the branches that lead to it exclude each other")
    R.rule("placeholder", "a value built with a placeholder that is to be replaced by loading it is not used, stored or handed out before loading it succeeded")
    P = Panics(F)
    left = {}
    for b, bb, t, kind, o in P.sites():
        w = P.why(b, bb, t, kind, o)
        if w == "dump":
            continue
        if w:
            R.ok("panic")
            continue
        x = X.of(F, b)
        src = source(F, x, x.op(o)) if o is not None else "-"
        left.setdefault("%s|%s" % (b.file, "unwrap" if kind in UNWRAP else "panic"), []).append((b, t, kind, src))
    for key, ps in sorted(left.items()):
        n, reasons = REVIEWED.get(key, (0, {}))
        if len(ps) <= n:
            R.ok("panic", len(ps))
            continue
        new = [q for q in ps if q[3] not in reasons] or ps[n:]
        R.ok("panic", len(ps) - len(new))
        for b, t, kind, src in new:
            R.bad("panic", "%s|%s" % (key, src), "%s can panic: %s of %s" % (b.nice, kind, src) if src != "-" else "%s can reach %s" % (b.nice, kind), "%s:%s" % (b.file, t["l"]))
    placeholders(F, R, P)
    R.floor("panic", 40)
    R.assume("a failure to write the dump to the output the caller passed is the caller's to handle: the dump's own write errors are not file content")
    R.assume("debug assertions are not part of the library as it is built")
    R.assume("values passed by code outside the library are those the functions are documented to take")


def placeholders(F, R, P):
    for (d, i), (cs, ls) in sorted(P.late.items()):
        L = late.Late(F, d, i, cs, ls, P.V).run(P)
        R.ok("placeholder", L.count - len(L.bad))
        done = set()
        for b, bb, what in L.bad:
            key = "%s|%s" % (b.file, what)
            if key in done:
                continue
            done.add(key)
            R.bad("placeholder", key, "%s: %s before it is loaded %s" % (b.nice, last(F.nice(d)), what), "%s:%s" % (b.file, b.blocks[bb]["t"]["l"]))
