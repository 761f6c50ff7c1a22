"""R04: every loop and every recursion of the library ends."""
import ctx, expr
from expr import X, last
from bounds import B
import term
from term import Term, ITER, ITERS

# Loops whose end depends on an invariant of data built elsewhere; each was read and is explained in DESIGN.md.
REVIEWED = {
    "canon::crw::decompress::Decompress::decompress": "the decoding tree built by make_decoder only has branches to later nodes",
    "decompress::bit_reader::BitReader::try_consume_zerobits": "goes on only after a batch of zero bits was consumed from the input",
    "fujifilm::decompress::CompressedBlock::fuji_bayer_decode_block": "each turn moves one of the two columns, which the width of the block bounds",
    "fujifilm::decompress::CompressedBlock::fuji_xtrans_pass": "each turn moves one of the two columns, which the width of the block bounds",
    "<metadata::Iterator<'_> as core::iter::traits::iterator::Iterator>::next": "each turn uses up a directory of the container or leaves a nested iterator",
}

CONSUMERS = {"collect", "count", "last", "for_each", "fold", "sum", "product", "min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "partition", "unzip", "reduce", "eq", "cmp", "all", "any", "find", "find_map", "position", "try_for_each", "try_fold", "nth", "extend", "from_iter"}
THROUGH = {"and_then", "map", "is_some_and", "is_ok_and", "map_or", "filter", "inspect", "then", "for_each"}


def strip_closure(n):
    return n.split("::{closure")[0]


def run(F, R):
    G = ctx.get(F)
    nodes = list(G.nodes())
    live = sorted({n[0] for n in nodes}, key=lambda k: (F.bodies[k].file, F.bodies[k].line))
    T = Term(F, G)
    T.reviewed = REVIEWED
    R.rule("loop", "every cycle of a function's control flow is bounded: it draws from a finite iterator, takes input on every turn and stops when there is none, uses up a collection or a slice, visits values not seen before, or moves a quantity towards a bound that does not move")
    R.rule("consumer", "a library operation that draws everything from an iterator is not given one that never ends")
    R.rule("recursion", "every cycle of the call graph passes a call that increases a depth, and one made only while the depth is below a fixed limit")
    nrev = 0
    kinds = {}
    for k in live:
        b = F.bodies[k]
        for c, es in T.loops(b):
            left = T.ends(b, c, es)
            if not left:
                R.ok("loop")
                for w in T.why.get(k, [])[-1:]:
                    kinds[w.split(" of ")[0]] = kinds.get(w.split(" of ")[0], 0) + 1
                continue
            if strip_closure(b.nice) in REVIEWED and len(left) == 1:
                nrev += 1
                R.ok("loop")
                continue
            for lc, le in left:
                ls = sorted(l for l in (b.blocks[u]["t"]["l"] for u in lc) if l >= b.line)
                where = "%s:%d" % (b.file, ls[0] if ls else b.line)
                calls = sorted({last(F.nice(term.callee(b.blocks[u]["t"]) or "?")) for u in lc if b.blocks[u]["t"]["k"] == "call"})
                R.bad("loop", b.nice, "nothing was found that ends this loop (lines %d to %d; it calls %s): no finite iterator, no input used up on every turn, no quantity moving towards a fixed bound" % (ls[0] if ls else 0, ls[-1] if ls else 0, ", ".join(calls[:6]) or "nothing"), where)
        for bb, t in b.calls():
            f = t.get("f") or ""
            n = last(F.nice(f))
            if n in CONSUMERS and (f.startswith(ITERS) or n in ("extend", "from_iter")):
                ta = [a for a in t.get("ta") or () if isinstance(a, int)]
                ty = ta[:1] if f.startswith(ITERS) else ta
                why = None
                for a in ty:
                    why = why or T.finite_type(a)
                R.check(not why, "consumer", b.nice + "|" + n, "%s draws from an iterator that may never end: %s" % (n, why), "%s:%d" % (b.file, t["l"]))
    for name in REVIEWED:
        if not any(strip_closure(F.bodies[k].nice) == name for k in live):
            R.note("reviewed loop no longer there: %s" % name)
    R.note("%d loops accepted by review" % nrev)
    R.note("measures used: " + ", ".join("%s %d" % (a, n) for a, n in sorted(kinds.items(), key=lambda z: -z[1])[:12]))
    recursion(F, R, G, nodes, T)
    R.floor("loop", 100)
    R.floor("consumer", 20)
    R.floor("recursion", 3)
    R.assume("the standard library and the crates this one depends on return from every call; their iterators end when the data they draw from does")
    R.assume("a file is finite: reading past its end fails, or returns an end of file")
    R.assume("counters do not wrap around (N04)")


# ---------------------------------------------------------------- recursion
DERIVED = {"macro:" + n for n in ("Debug", "Default", "Clone", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash", "TryFromPrimitive", "IntoPrimitive", "thiserror::Error", "Error")}
FAMILY = (("fallible_collections", ("read_into_try_vec", "try_read_to_end")),
          ("core::ops::arith", ("ops::arith", "num_traits", "::sum", "::product", "fold")),
          ("core::cmp", ("cmp", "contains", "sort", "dedup", "position", "assert", "btree", "hash", "max", "min", "::eq", "search", "partition")),
          ("core::clone", ("clone", "to_vec", "to_owned", "extend", "resize", "vec::", "cloned", "repeat")),
          ("core::default", ("default", "take", "resize_with", "get_or")),
          ("core::hash", ("hash",)),
          ("core::convert", ("into", "from", "convert", "try_trait", "branch")))


def may_call(f, tr):
    """Whether code outside the crate named f can call a method of the trait on what it is given."""
    q = tr.split("::")[-1]
    if q in ("Debug", "Display", "LowerHex", "UpperHex"):
        if "new_debug" in f:
            return q == "Debug"
        if "new_display" in f or "to_string" in f:
            return q == "Display"
        if "fmt" in f:
            return False
        return q == "Debug" and ("unwrap" in f or "expect" in f or "assert" in f)
    lf = f.lower()
    for p, toks in FAMILY:
        if tr.startswith(p):
            return any(x in lf for x in toks)
    return True


def edges(F, G, node):
    """(callee node, block, terminator or None for a closure created there)"""
    b = F.bodies[node[0]]
    fn = F.fns.get(strip_closure(node[0]), {})
    own = F.types[fn["self"]] if fn.get("self") is not None else None
    for bb in G.live(node):
        for n in G.values(b, node[1], bb):
            if n[0] in F.bodies:
                yield n + ((),), bb, None
        t = b.blocks[bb]["t"]
        if t["k"] != "call":
            continue
        if t.get("exp") in DERIVED:
            continue
        ta = t.get("ta") or ()
        st = F.types[ta[0]] if ta and isinstance(ta[0], int) else None
        while st is not None and st["k"] in ("ref", "ptr"):
            st = F.types[st["t"]]
        f = t.get("f") or ""
        if t.get("trait") and st is not None and st["k"] == "param" and st["s"] != "Self" and own is not None and own["k"] == "adt" and own.get("a"):
            # a method of the type wrapped by this one: the nesting of types is finite
            continue
        local = f in F.bodies or (t.get("res") in F.bodies) or f.rsplit("::", 1)[0] in G.local_traits
        for n in G.callees(node, t):
            if n[0] not in F.bodies:
                continue
            if not local:
                tr = F.fns.get(n[0], {}).get("trait")
                if tr and not may_call(f, tr):
                    continue
                if F.fns.get(n[0], {}).get("trait") is None and "{closure" not in n[0] and not any(v[0] == n[0] for v in G.values(b, node[1], bb)) and t.get("res") != "virtual":
                    continue
            yield n, bb, t


def sccs(nodes, succ):
    idx, low, st, on, out = {}, {}, [], set(), []
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ.get(r, ())))]
        idx[r] = low[r] = len(idx)
        st.append(r)
        on.add(r)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ.get(w, ()))))
                    break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == u:
                            break
                    if len(c) > 1 or u in succ.get(u, ()):
                        out.append(c)
    return out


def recursion(F, R, G, nodes, T):
    E = {}
    for n in nodes:
        b = F.bodies[n[0]]
        if derived(F, b):
            continue
        E[n] = list(edges(F, G, n))
    succ = {n: [e[0] for e in es] for n, es in E.items()}
    R.ok("recursion", 0)
    cyc = sccs(list(E), succ)
    R.note("%d functions and contexts in the call graph, %d groups of mutually recursive functions" % (len(E), len(cyc)))
    # grouped by function
    seen = set()
    for c in cyc:
        fs = frozenset(n[0] for n in c)
        if fs in seen:
            continue
        seen.add(fs)
        es = set()
        for n in c:
            for m, bb, t in E[n]:
                if m in c:
                    es.add((n[0], m[0], bb, t is None))
        es = sorted(es)
        why = bounded(F, fs, es)
        b = F.bodies[min(fs, key=lambda k: (F.bodies[k].file, F.bodies[k].line))]
        names = sorted(F.bodies[k].nice for k in fs)
        if why is None:
            R.ok("recursion", len(es))
            continue
        R.bad("recursion", names[0], "%s: %s" % (" and ".join(names[:4]) + (" call themselves" if len(names) == 1 else " call each other"), why), "%s:%d" % (b.file, b.line))
    R.ok("recursion", len(E))


def derived(F, b):
    return any(b.blocks[bb]["t"].get("exp") in DERIVED for bb in b.reach)


def keys(F, f):
    """Integers a function is given."""
    b = F.bodies[f]
    x = X.of(F, b)
    out = []
    for i in range(1, b.argc + 1):
        t = F.types[b.lty(i)]
        while t["k"] in ("ref", "ptr"):
            t = F.types[t["t"]]
        if t["k"] == "int":
            out.append(("p", i))
    if "{closure" in f:
        for k in range(12):
            out.append(("f", ("p", 1), k))
    return out


def transfers(F, e, key_g):
    """The value the callee's key gets, in terms of the caller."""
    f, g, bb, clos = e
    b = F.bodies[f]
    x = X.of(F, b)
    if clos:
        if key_g[0] != "f":
            return None
        for s in b.blocks[bb]["s"]:
            if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"].get("d") == g:
                ops = s["r"]["ops"]
                if key_g[2] < len(ops):
                    return x.op(ops[key_g[2]])
        return None
    if key_g[0] != "p":
        return None
    t = b.blocks[bb]["t"]
    a = t["a"]
    i = key_g[1] - 1
    return x.op(a[i]) if i < len(a) else None


def step(F, e, key_f, key_g):
    v = transfers(F, e, key_g)
    if v is None:
        return None
    b = F.bodies[e[0]]
    x = X.of(F, b)
    bt = B(F, x, [])
    g, c = bt.lin(v)
    if g == {key_f: 1}:
        return c
    return None


def tested(F, e, key_f, sign):
    b = F.bodies[e[0]]
    x = X.of(F, b)
    for f in x.facts(e[2]):
        if len(f) == 3 and f[0] in expr.NEG:
            for op, a, c in (f, (expr.FLIP[f[0]], f[2], f[1])):
                if a == key_f and op in (("Lt", "Le") if sign > 0 else ("Gt", "Ge", "Ne")) and fixed(F, b, x, c):
                    return True
    return False


def fixed(F, b, x, e, n=0):
    """A constant, or a local variable that stays below one."""
    if e[0] in ("c", "cdef"):
        return True
    if e[0] == "l" and n < 3:
        ds = b.defs.get(e[1], [])
        if not ds or e[1] in x.mutref:
            return False
        for bb, i, rv in ds:
            r = x.rv(rv, bb, e[1])
            if r[0] == "c":
                continue
            if any(len(f) == 3 and f[0] in ("Lt", "Le") and f[1] == e and fixed(F, b, x, f[2], n + 1) for f in x.facts(bb)) and B(F, x, []).lin(r)[0] == {e: 1}:
                continue
            return False
        return True
    return False


def cut_ok(fs, es, cut):
    succ = {}
    for e in es:
        if e not in cut:
            succ.setdefault(e[0], []).append(e[1])
    return not sccs(sorted(fs), succ)


def seen_before(F, e):
    """The call is made only for a value just added to a set of values met."""
    b = F.bodies[e[0]]
    x = X.of(F, b)
    for f in x.facts(e[2]):
        if f[0] == "true" and f[1][0] == "call@" and last(F.nice(f[1][2])) == "insert" and "Set" in F.nice(f[1][2]):
            r = term.root(f[1][3]) if len(f[1]) > 3 else None
            if r and r[0] == "p":
                return True
    return False


def bounded(F, fs, es):
    """None when no cycle of calls can go on for ever, else why not."""
    v = {e for e in es if seen_before(F, e)}
    if v and cut_ok(fs, es, v):
        return None
    start = min(fs, key=lambda f: ("{closure" in f, f))
    best = "no depth is passed along"
    for k0 in keys(F, start):
        for sign in (1, -1):
            asg = {start: k0}
            if not assign(F, fs, es, asg, sign):
                continue
            strict = {e for e in es if sign * step(F, e, asg[e[0]], asg[e[1]]) > 0}
            test = {e for e in es if tested(F, e, asg[e[0]], sign)}
            if not strict or not cut_ok(fs, es, strict):
                if strict:
                    best = "there is a way round on which the depth does not change"
                continue
            if test and cut_ok(fs, es, test):
                return None
            best = "the depth passed along is not compared with a fixed limit on every way round"
    return best


def assign(F, fs, es, asg, sign):
    """Extend the choice of the integer that is the depth in each function."""
    for e in es:
        f, g = e[0], e[1]
        if f in asg and g in asg:
            s = step(F, e, asg[f], asg[g])
            if s is None or sign * s < 0:
                return False
    for e in es:
        f, g = e[0], e[1]
        if f in asg and g not in asg:
            for k in keys(F, g):
                s = step(F, e, asg[f], k)
                if s is None or sign * s < 0:
                    continue
                a2 = dict(asg)
                a2[g] = k
                if assign(F, fs, es, a2, sign):
                    asg.update(a2)
                    return True
            return False
    return all(f in asg for f in fs)
