"""M01: uninitialised memory never reaches a result."""
from expr import X, last, subst
from bounds import B
import inter

# calls that initialise the whole buffer they are given mutably; the first kind when they return Ok, the second always
FILL_OK = {"read_exact", "read_exact_at", "read_u16_into", "read_u32_into", "read_u64_into", "read_u128_into", "read_i8_into", "read_i16_into", "read_i32_into",
           "read_i64_into", "read_i128_into", "read_f32_into", "read_f64_into"}
FILL = {"fill", "fill_with", "copy_from_slice", "clone_from_slice", "write_bytes"}
# calls that do not look at the contents
SHAPE = {"len", "capacity", "is_empty", "clear", "drop", "drop_in_place", "reserve", "reserve_exact", "with_capacity", "iter_mut", "as_mut_ptr", "as_mut_slice", "deref_mut", "deref", "as_slice",
         "as_mut", "borrow_mut", "index_mut", "into_iter", "as_ptr", "chunks_exact_mut", "chunks_mut", "next", "enumerate", "zip", "rev", "as_ref", "size_of_val", "set_len", "forget", "by_ref", "map_err", "branch", "ok_or",
         "ok_or_else", "ok", "from_residual", "unwrap", "expect", "is_ok", "is_err", "from"}
UNINIT = {"uninitialized": "a value", "assume_init": "a value", "assume_init_ref": "a value", "assume_init_mut": "a value", "assume_init_read": "a value", "new_uninit": "a box", "new_uninit_slice": "a box",
          "uninit_array": "an array", "spare_capacity_mut": "a buffer", "alloc": "memory", "realloc": "memory", "malloc": "memory", "split_at_spare_mut": "a buffer", "set_len": None, "uninit": "a value",
          "slice_assume_init_ref": "a value", "array_assume_init": "a value"}


def name(F, t):
    return last(F.nice(t.get("res") or t.get("f") or "?"))


def mentions(x, e, v):
    """The contents of v are part of e (its length, or what a call that returns no reference made of it, does not count)."""
    if not isinstance(e, tuple) or not e:
        return False
    if e == v:
        return True
    if e[0] == "len" or (e[0] == "call" and e[1] in ("len", "is_empty", "capacity", "size_of_val")):
        return False
    if e[0] == "call@" and isinstance(e[1], int):
        t = x.b.blocks[e[1]]["t"]
        ty = x.F.tys(x.b.place_ty((t["d"][0], tuple(tuple(y) if not isinstance(y, str) else y for y in t["d"][1])))) if t["k"] == "call" else "&"
        if "&" not in ty and "'" not in ty and "Iter" not in ty and "Chunks" not in ty and "Enumerate" not in ty and "Zip" not in ty and "Rev" not in ty:
            return False
    return any(mentions(x, y, v) for y in e if isinstance(y, tuple))


def whole(F, x, bb, e, v, origin):
    """e stands for all of v."""
    if e == v:
        return True
    if e[0] == "call" and e[1] == "index" and len(e) == 4 and e[2] == v and e[3][0] == "agg":
        r, a = e[3][1], e[3][3]
        n = x.length(v)
        BB = B(F, x, x.facts(bb))
        if r.endswith("RangeFull"):
            return True
        if r.endswith("RangeFrom::RangeFrom"):
            return a[0] == ("c", 0)
        hi = a[-1]
        if r.endswith("RangeTo::RangeTo") or (r.endswith("Range::Range") and a[0] == ("c", 0)):
            return full_len(F, x, BB, v, hi, origin)
    return False


def full_len(F, x, BB, v, hi, origin):
    n = x.length(v)
    if hi == n:
        return True
    # the length it was given
    for bb, t in x.b.calls():
        o = v
        for _ in range(5):
            if name(F, t) == "set_len" and x.op(t["a"][0]) == o:
                return x.op(t["a"][1]) == hi
            if o not in origin:
                break
            o = origin[o]
    return False


class Flow:
    def __init__(self, F, b, entry=()):
        """entry: expressions dirty at the entry."""
        self.F, self.b, self.x = F, b, X.of(F, b)
        self.uses = []      # (where, expression, what)
        self.sites = 0
        self.fills = {}     # block of a filling call -> (expression, immediate)
        self.at = {0: frozenset(entry)}
        self.ret = []
        self.origin = {}    # buffer -> the variable it was moved from
        self.solve()

    def solve(self):
        x, b = self.x, self.b
        work = [0]
        n = 0
        while work and n < 20000:
            n += 1
            bb = work.pop(0)
            st = self.at[bb]
            st2 = self.transfer(bb, st, False)
            for s in b.succ[bb]:
                ns = self.edge(bb, s, st2)
                old = self.at.get(s)
                new = ns if old is None else old | ns
                if new != old:
                    self.at[s] = new
                    if s not in work:
                        work.append(s)
        for bb in sorted(self.at):
            self.transfer(bb, self.at[bb], True)

    def edge(self, bb, s, st):
        if not st:
            return st
        t = self.b.blocks[bb]["t"]
        if t["k"] != "switch":
            return st
        out = set(st)
        for f in self.x.edge_facts(bb, s):
            if f[0] == "ok":
                e = f[1]
                if e[0] == "call@" and e[1] in self.fills:
                    out.discard(self.fills[e[1]])
        # an iteration over all of it that writes each item
        e = self.x.op(t["d"])
        if e[0] == "discr":
            y = e[1]
            if y[0] == "call@" and last(self.F.nice(y[2])) == "next" and len(y) > 3:
                for v in list(out):
                    if self.full_iter(y[3], v) and ("notok", y) in self.x.edge_facts(bb, s) and self.item_written(bb, y):
                        out.discard(v)
        return frozenset(out)

    def full_iter(self, it, v):
        for _ in range(6):
            if it[0] == "l":
                i = self.x.init(it[1])
                if i is None or i == it:
                    return False
                it = i
            elif it[0] == "call@" and last(self.F.nice(it[2])) in ("into_iter", "enumerate", "rev") and len(it) > 3:
                it = it[3]
            elif it[0] == "call@" and last(self.F.nice(it[2])) == "iter_mut" and len(it) > 3:
                return it[3] == v
            else:
                return it == v
        return False

    def item_written(self, head, nxt):
        """On every turn of the loop the item is stored to."""
        item = ("some", nxt)
        b, x = self.b, self.x
        loop = None
        for h, blocks in b.loops().items() if hasattr(b.loops(), "items") else []:
            if head in blocks:
                if loop is None or len(blocks) < len(loop):
                    loop = blocks
        if loop is None:
            return False
        w = set()
        for bb in loop:
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and "*" in s["p"][1]:
                    e = x.place(s["p"])
                    if e == item or (e[0] == "f" and e[1] == item):
                        w.add(bb)
        # a turn that avoids all the writes comes back to the head
        st = [s for s in b.succ[head] if s in loop and s not in w]
        seen = set(st)
        while st:
            n = st.pop()
            for m in b.succ[n]:
                if m == head:
                    return False
                if m in loop and m not in w and m not in seen:
                    seen.add(m)
                    st.append(m)
        return bool(w)

    def transfer(self, bb, st, report):
        F, b, x = self.F, self.b, self.x
        st = set(st)
        blk = b.blocks[bb]
        for s in blk["s"]:
            if s["k"] != "=" or not st:
                continue
            r = s["r"]
            ops = []
            if r["k"] == "agg":
                ops = r["ops"]
            else:
                ops = [r[k] for k in ("o", "a", "b") if isinstance(r.get(k), dict)]
            for v in list(st):
                for o in ops:
                    if o["k"] not in ("copy", "move"):
                        continue
                    e = x.op(o)
                    if not mentions(x, e, v):
                        continue
                    if r["k"] == "agg" and r["ak"] in ("tuple", "array", "adt", "closure"):
                        if r["ak"] == "adt" and "Range" in str(r.get("d")):
                            continue
                        if r["ak"] == "closure":
                            if self.after_fill(s["p"][0], v):
                                st.discard(v)
                                continue
                            self.use(report, s.get("l"), v, "captured by a closure")
                        else:
                            self.use(report, s.get("l"), v, "stored in a value")
                    elif r["k"] == "use" and o["k"] == "move" and x.b.op_ty(o) == self.vty(v):
                        # moved to another variable: that one holds it now
                        if not s["p"][1]:
                            d = x.local(s["p"][0])
                            if d != v:
                                st.discard(v)
                                st.add(d)
                                self.origin[d] = v
                        else:
                            self.use(report, s.get("l"), v, "stored")
                    elif e == v and (s["p"][0] == 0 or s["p"][1]):
                        self.use(report, s.get("l"), v, "stored")
                    elif reads(F, x, e, v) and F.types[x.b.op_ty(o)]["k"] not in ("ref", "ptr"):
                        self.use(report, s.get("l"), v, "read")
        t = blk["t"]
        if t["k"] == "call":
            n = name(F, t)
            f = t.get("res") or t.get("f")
            args = [x.op(a) for a in t["a"]]
            if n == "set_len" and len(args) == 2:
                if args[1] != ("c", 0):
                    BB = B(F, x, x.facts(bb))
                    if not BB.le(args[1], x.length(args[0])) or args[0] in st:
                        st.add(args[0])
                        if report:
                            self.sites += 1
                return frozenset(st)
            for v in list(st):
                if not any(mentions(x, a, v) for a in args):
                    continue
                if n in FILL_OK or n in FILL:
                    idx = [i for i, a in enumerate(args) if mentions(x, a, v)]
                    if n in FILL:
                        if idx == [0] and whole(F, x, bb, args[0], v, self.origin):
                            st.discard(v)
                            continue
                        if idx == [0]:
                            continue
                    elif idx and 0 not in idx and any(whole(F, x, bb, args[i], v, self.origin) for i in idx):
                        self.fills[bb] = v
                        continue
                    elif idx and 0 not in idx:
                        continue
                if f in F.bodies:
                    i = [i for i, a in enumerate(args) if mentions(x, a, v)]
                    if len(i) == 1 and args[i[0]] == v:
                        k = fills_param(F, f, i[0] + 1)
                        if k == "ok":
                            self.fills[bb] = v
                            continue
                        if k == "always":
                            st.discard(v)
                            continue
                if n in SHAPE or (n == "for_each" and self.for_each(t, args, v)):
                    if n == "for_each":
                        st.discard(v)
                    if n in ("unwrap", "expect") and args[0][0] == "call@" and args[0][1] in self.fills:
                        st.discard(self.fills[args[0][1]])
                    if n in ("clear", "drop"):
                        st.discard(v)
                    continue
                if n in ("truncate", "resize") and len(args) > 1 and read_count(F, x, args[1], v):
                    st.discard(v)
                    continue
                if n == "read" and len(args) == 2 and args[1] == v:
                    continue
                self.use(report, t.get("l"), v, "handed to %s" % n)
        elif t["k"] == "drop":
            for v in list(st):
                if v == ("l", t["p"][0]) and not t["p"][1]:
                    self.dropped = True
        elif t["k"] == "return" and report and st:
            self.ret.append((bb, frozenset(st)))
        # a local that gets a new value is not dirty any more
        if t["k"] == "call" and not t["d"][1]:
            st.discard(("l", t["d"][0]))
            for v in list(st):
                pass
        return frozenset(st)

    def after_fill(self, c, v):
        """Closure local c is only run when filling v has succeeded."""
        n = 0
        for bb, t in self.b.calls():
            if any(a["k"] in ("copy", "move") and a["p"][0] == c for a in t["a"]):
                n += 1
                e = self.x.op(t["a"][0])
                while e[0] == "call" and e[1] in ("map_err", "ok", "map", "and_then"):
                    e = e[2]
                if name(self.F, t) not in ("map", "and_then") or not (e[0] == "call@" and self.fills.get(e[1]) == v):
                    return False
        return n == 1

    def for_each(self, t, args, v):
        it = args[0]
        if not self.full_iter(it, v):
            return False
        for a in t["a"][1:]:
            ty = self.b.op_ty(a)
            if ty is not None and self.F.types[ty]["k"] == "closure":
                cb = self.F.bodies.get(self.F.types[ty]["d"])
                if cb:
                    for bb in cb.reach:
                        for s in cb.blocks[bb]["s"]:
                            if s["k"] == "=" and s["p"] == [2, ["*"]] and all(bb in cb.dom[r] for r in cb.reach if cb.blocks[r]["t"]["k"] == "return"):
                                return True
        return False

    def vty(self, v):
        return self.b.lty(v[1]) if v[0] in ("l", "p") else None

    def use(self, report, line, v, what):
        if report:
            self.uses.append((line or self.b.line, v, what))


def reads(F, x, e, v):
    """e is an element (or part) of v."""
    deep = False
    while isinstance(e, tuple) and e:
        if e == v:
            return deep
        if e[0] in ("idx", "cidx", "f", "down", "proj"):
            deep = True
            e = e[1]
        elif e[0] == "call" and e[1] == "index":
            e = e[2]
        elif e[0] == "some" and e[1][0] == "call@" and last(F.nice(e[1][2])) == "next" and len(e[1]) > 3:
            deep = True
            e = e[1][3]
        elif e[0] == "call@" and last(F.nice(e[2])) in ("iter_mut", "into_iter", "enumerate", "rev", "zip", "chunks_mut", "chunks_exact_mut") and len(e) > 3:
            e = e[3]
        elif e[0] == "l":
            i = x.init(e[1])
            if i is None or i == e or e[1] not in x.mutref:
                return False
            e = i
        else:
            return False
    return False


def read_count(F, x, n, v):
    """n is the number of bytes a read into v reported."""
    return n[0] == "some" and n[1][0] == "call@" and last(F.nice(n[1][2])) == "read" and len(n[1]) > 4 and n[1][4] == v


def vec_literal(F, b, t):
    """The box of a vec![..] literal: the macro writes it and turns it into the vector."""
    ls = {t["d"][0]}
    for _ in range(3):
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s["k"] == "=" and s["r"]["k"] == "use" and s["r"]["o"]["k"] == "move" and s["r"]["o"]["p"][0] in ls and not s["r"]["o"]["p"][1]:
                    ls.add(s["p"][0])
    users = {name(F, c) for bb, c in b.calls() for a in c["a"] if a["k"] in ("copy", "move") and a["p"][0] in ls}
    return users == {"box_assume_init_into_vec_unsafe"}


_fp = {}


def fills_param(F, f, i):
    """'ok': parameter i of f is wholly initialised when f returns Ok/Some; 'always': whenever it returns; None."""
    k = (id(F), f, i)
    if k in _fp:
        return _fp[k]
    _fp[k] = None
    b = F.bodies[f]
    if b.kind != "fn" or i > b.argc:
        return None
    x = X.of(F, b)
    e = x.local(i)
    fl = Flow(F, b, (e,))
    if fl.uses:
        return None
    ok = True
    always = True
    for bb, st in fl.ret:
        if e in st:
            always = False
            if not returns_failure(F, fl, bb, e):
                ok = False
    _fp[k] = "always" if always else "ok" if ok and x.opt_kind(b.lty(0)) in ("option", "result") else None
    return _fp[k]


def returns_failure(F, fl, ret, v):
    """Every assignment of the result with v not initialised is a failure."""
    b, x = fl.b, fl.x
    kind = x.opt_kind(b.lty(0))
    if kind not in ("option", "result"):
        return False
    good = {"option": 1, "result": 0}[kind]
    for bb, i, rv in b.defs.get(0, []):
        st = fl.at.get(bb)
        if st is None:
            continue
        dirty = v in st
        if not dirty:
            continue
        if rv["k"] == "agg":
            if rv["v"] == good:
                return False
        elif rv["k"] == "call":
            n = name(F, rv)
            if n == "from_residual":
                continue
            e = x.call(rv, bb)
            # the filling call's own result is the function's
            if bb in fl.fills and fl.fills[bb] == v:
                continue
            y = e
            while y[0] == "call" and y[1] in ("map_err", "map", "ok", "and_then", "ok_or"):
                y = y[2]
            if y[0] == "call@" and y[1] in fl.fills and fl.fills[y[1]] == v:
                continue
            return False
        elif rv["k"] == "use":
            e = x.op(rv["o"])
            if e[0] == "agg" and e[2] != good:
                continue
            y = e
            if y[0] == "call@" and y[1] in fl.fills:
                continue
            return False
        else:
            return False
    return True


def run(F, R):
    R.rule("source", "memory is left uninitialised only by Vec::set_len; other producers (MaybeUninit, mem::uninitialized, allocation) are not used")
    R.rule("before-filled", "a buffer sized by set_len is not read, moved, stored, returned or handed on before a call that writes all of it has succeeded (dataflow from the set_len on all paths, filling functions summarised)")
    R.rule("failure-reported", "a function that leaves such a buffer unfilled returns a failure")
    sites = 0
    for bid, b in sorted(F.bodies.items()):
        if b.kind == "promoted":
            continue
        has = False
        for bb, t in b.calls():
            n = name(F, t)
            f = t.get("res") or t.get("f") or ""
            if n == "set_len":
                has = True
                R.ok("source")
            elif n == "new_uninit" and vec_literal(F, b, t):
                pass
            elif n in UNINIT and (t.get("u") or n in ("uninit", "new_uninit", "new_uninit_slice", "uninit_array", "spare_capacity_mut")) and f not in F.bodies:
                R.bad("source", "%s|%s" % (b.nice, n), "%s leaves %s uninitialised with %s" % (b.nice, UNINIT[n], F.nice(f)), "%s:%d" % (b.file, t.get("l", b.line)))
            elif n == "from_raw_parts" and "vec" in f:
                R.bad("source", "%s|%s" % (b.nice, n), "%s makes a vector out of raw memory" % b.nice, "%s:%d" % (b.file, t.get("l", b.line)))
        if not has:
            continue
        fl = Flow(F, b)
        sites += 1
        for line, v, what in sorted(set(fl.uses), key=str):
            R.bad("before-filled", "%s|%s|%s" % (b.nice, b.lname(v[1]) if v[0] in ("l", "p") and isinstance(v[1], int) else "buffer", what),
                  "in %s the uninitialised buffer %s is %s before it is known to be filled" % (b.nice, inter.show(F, b, v), what), "%s:%d" % (b.file, line))
        if not fl.uses:
            R.ok("before-filled")
        bad = []
        for bb, st in fl.ret:
            for v in st:
                if not returns_failure(F, fl, bb, v):
                    bad.append(v)
        R.check(not bad, "failure-reported", b.nice, "%s can succeed although the buffer %s was not filled" % (b.nice, inter.show(F, b, bad[0]) if bad else ""), "%s:%d" % (b.file, b.line))
    R.note("functions sizing a buffer without initialising it: %d" % sites)
    R.assume("read_exact and byteorder's read_*_into write the whole buffer when they return Ok")
