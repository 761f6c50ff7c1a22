"""Which fields of the library's own types a function can change, itself or through what it calls; and which fields never change after construction."""
import mir, cg


def strip(F, t):
    x = F.types[t]
    while x["k"] in ("ref", "ptr"):
        t = x["t"]
        x = F.types[t]
    return t, x


def path_fields(F, b, p):
    """(adt, field) pairs the place walks through, outermost first."""
    out = []
    t = b.lty(p[0])
    v = 0
    for e in p[1]:
        if t is None:
            return out, None
        if e == "*":
            x = F.types[t]
            if x["k"] in ("ref", "ptr"):
                t = x["t"]
            elif x["k"] == "adt" and x["a"]:
                t = x["a"][0]
            else:
                t = None
            v = 0
            continue
        if e[0] == "f":
            x = F.types[t]
            if x["k"] == "adt":
                out.append((x["d"], e[1]))
            t = e[2] if len(e) > 2 else None
            v = 0
        elif e[0] == "dc":
            v = e[1]
        else:
            x = F.types[t]
            t = x.get("t") if x["k"] in ("array", "slice") else None
    return out, t


class Mods:
    def __init__(self, F):
        self.F = F
        self.C = cg.get(F)
        self.own = {k: self.direct(b) for k, b in F.bodies.items()}
        self.tr = {}
        self.const_cache = None

    def direct(self, b):
        """Fields (adt, i), and adts (adt, None) overwritten as a whole, assigned or handed out mutably here."""
        F = self.F
        out = set()

        def write(p):
            fs, t = path_fields(F, b, p)
            if not p[1]:
                return
            out.update(fs)
            if t is not None:
                x = F.types[t]
                if x["k"] == "adt":
                    out.add((x["d"], None))
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s["k"] != "=":
                    continue
                write(s["p"])
                r = s["r"]
                if (r["k"] == "ref" and r["mut"]) or (r["k"] == "rawptr" and r.get("mut", True)):
                    fs, t = path_fields(F, b, r["p"])
                    out.update(fs)
            t = b.blocks[bb]["t"]
            if t["k"] == "call":
                write(t["d"])
                f = t.get("res") or t.get("f")
                if f not in F.bodies:
                    for a in t["a"]:
                        ty = b.op_ty(a)
                        if ty is not None and F.types[ty]["k"] in ("ref", "ptr") and F.types[ty].get("mut"):
                            _, x = strip(F, ty)
                            if x["k"] == "adt":
                                out.add((x["d"], None))
        return out

    def of(self, f):
        if f not in self.tr:
            r = set()
            for k in self.C.reach([f]):
                r |= self.own.get(k, set())
            self.tr[f] = r
        return self.tr[f]

    def may(self, f, adt, i):
        m = self.of(f)
        return (adt, i) in m or (adt, None) in m

    # ---- fields set at construction only
    def constructions(self):
        """{adt: [(body, bb, operands, field order)]} and the set of fields written later."""
        if self.const_cache is None:
            F = self.F
            cons, wr = {}, set()
            for k, b in F.bodies.items():
                wr |= self.own[k]
                for bb in b.reach:
                    for s in b.blocks[bb]["s"]:
                        if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") in F.adts:
                            cons.setdefault(s["r"]["d"], []).append((b, bb, s["r"]))
            self.const_cache = (cons, wr)
        return self.const_cache

    def fixed(self, adt, i):
        """The constructions of a struct whose field i is never written after construction (None if it may be)."""
        a = self.F.adts.get(adt)
        if not a or a["kind"] != "struct":
            return None
        cons, wr = self.constructions()
        if (adt, i) in wr:
            return None
        return cons.get(adt)


_m = {}


def get(F):
    if id(F) not in _m:
        _m[id(F)] = Mods(F)
    return _m[id(F)]
