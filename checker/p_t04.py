"""T04: asking for raw data undecoded never decodes it, and the request is passed on unchanged."""
import re
import cg
from spec import Spec, TOP
from expr import last

LOAD = "load_rawdata"
BITTY = re.compile(r"Bit(s)?(Reader|Pump|Cursor)|Bits$|Huff|LJpeg")


def sink_fns(F):
    """Functions that take compressed data apart bit by bit (or belong to a type that does)."""
    out = set()
    for k, b in F.bodies.items():
        if b.kind not in ("fn", "closure") or "::mp4::" in k:
            continue
        fi = F.fns.get(k, {})
        st = fi.get("self")
        nm = ""
        if st is not None:
            t = F.types[st]
            while t["k"] in ("ref", "ptr"):
                t = F.types[t["t"]]
            nm = (t.get("d") or t["s"]).split("::")[-1]
        tr = fi.get("in_trait") and k.split("::")[-2] or ""
        if BITTY.search(nm) or BITTY.search(tr):
            if any(bb is not None for bb, t in b.calls()) or len(b.reach) > 0:
                if last(k) not in ("new", "default", "fmt", "clone", "drop", "set_slices"):
                    out.add(k)
        for bb, t in b.calls():
            if (t.get("res") or t.get("f") or "").startswith("bitreader::"):
                out.add(k)
    return out


def run(F, R):
    R.rule("skip", "when the caller asks for undecoded data no decoder can reach code that takes compressed pixel data apart")
    R.rule("decode", "when the caller asks for decoded data a decoder that can decompress still reaches its decompression")
    R.rule("passed-on", "every way to ask for the raw data hands the request on unchanged")
    C = cg.get(F)
    sinks = sink_fns(F)
    packed = {k for k, b in F.bodies.items() if last(k).startswith("unpack")}
    # who can reach a sink without going through plain unpacking
    reachers = reverse(C, sinks, packed)
    impls = []
    for im in F.impls:
        for n, item, ti in im["items"]:
            if n == LOAD and item in F.bodies and ti.endswith("RawFileImpl::" + LOAD):
                impls.append((F.tys(im["self"]), item))
    R.check(len(impls) >= 10, "skip", "anchor", "only %d decoders with %s were found" % (len(impls), LOAD), "src/rawfile.rs")
    traitfn = next((ti for im in F.impls for n, item, ti in im["items"] if n == LOAD), None)

    memo = {}

    def refusal(g, i):
        """The flag in argument `i` keeps `g` from decompressing when it is set, and only then."""
        if (g, i) not in memo:
            memo[g, i] = False
            got = []
            for v in (0, 1):
                def hook(S, bb_, bb, t, h, args, te, tenv):
                    if h in sinks and h not in packed or h in reachers and not known(args):
                        return [("sink", h)]
                    return None
                b = F.bodies[g]
                ev = Spec(F, hook, lambda h, args: h in reachers and h not in packed and h not in sinks and known(args)).run(g, [v if l - 1 == i else TOP for l in range(1, b.argc + 1)])[2]
                got.append(bool(ev))
            memo[g, i] = got == [True, False]
        return memo[g, i]

    for ty, item in sorted(impls):
        b = F.bodies[item]
        flag = [l for l in range(1, b.argc + 1) if F.types[b.lty(l)]["k"] == "bool"]
        if len(flag) != 1:
            R.fail("skip", ty + "|flag", "%s has no skip flag" % b.nice, "%s:%s" % (b.file, b.line))
            continue
        res = {}
        for v in (1, 0):
            def hook(S, bb_, bb, t, g, args, te, tenv):
                if g in packed:
                    return None
                if g in sinks:
                    return [("sink", F.nice(g), bb_.nice, t["l"], bb_.file)]
                if g in reachers and not known(args):
                    return [("sink", reachers[g], bb_.nice, t["l"], bb_.file)]
                if v == 0 and g in reachers and 1 in args and g in F.bodies:
                    fl = [i for i, a in enumerate(args) if a == 1 and F.types[F.bodies[g].lty(i + 1)]["k"] == "bool"]
                    if len(fl) == 1 and refusal(g, fl[0]):
                        return [("refused", F.nice(g), bb_.nice, t["l"], bb_.file)]
                return None

            def enter(g, args):
                return g in reachers and g not in packed and g not in sinks and known(args)
            args = [v if l in flag else TOP for l in range(1, b.argc + 1)]
            S = Spec(F, hook, enter)
            r, back, ev = S.run(item, args)
            res[v] = sorted(e for e in ev if e[0] == "sink")
            if v == 0:
                ref = sorted(e for e in ev if e[0] == "refused")
                R.check(not ref, "decode", ty + "|refused", "%s asks %s not to decode although decoded data was asked for" % (ref and ref[0][2], ref and ref[0][1]),
                        "%s:%s" % (ref[0][4], ref[0][3]) if ref else "%s:%s" % (b.file, b.line))
        first = res[1][0] if res[1] else None
        R.check(not res[1], "skip", ty, "%s reaches %s (from %s) although undecoded data was asked for" % (b.nice, first and first[1], first and first[2]),
                "%s:%s" % (first[4], first[3]) if first else "%s:%s" % (b.file, b.line))
        if item in reachers:
            R.check(bool(res[0]), "decode", ty, "%s never reaches its decompression when decoded data is asked for" % b.nice, "%s:%s" % (b.file, b.line))

    # ---- the request on its way to the decoder
    implfns = {i for _, i in impls}
    direct = {traitfn} | implfns
    callers = {}
    for k, b in F.bodies.items():
        if b.kind not in ("fn", "closure"):
            continue
        for bb, t in b.calls():
            if (t.get("f") in direct or t.get("res") in direct) and root(F, k) not in implfns:
                callers.setdefault(root(F, k), []).append((k, bb, t))
    # functions on the way: callers of callers that pass a flag
    way = set(callers)
    work = list(way)
    while work:
        g = work.pop()
        gt = trait_item(F, g)
        for k, b in F.bodies.items():
            if b.kind not in ("fn", "closure"):
                continue
            for bb, t in b.calls():
                if (t.get("res") == g or t.get("f") == g or (gt and t.get("f") == gt)):
                    rk = root(F, k)
                    if rk not in way and rk not in implfns and flags(F, g):
                        way.add(rk)
                        work.append(rk)
    n = 0
    for g in sorted(way):
        b = F.bodies[g]

        def hook(S, bb_, bb, t, h, args, te, tenv):
            if t.get("f") in direct or t.get("res") in direct:
                fl = [a for a, o in zip(args, t["a"]) if F.types[bb_.op_ty(o)]["k"] == "bool"]
                return [("load", fl[-1] if fl else None, bb_.nice, t["l"])]
            return None

        def enter(h, args):
            return h in way or root(F, h) == g or (h in F.bodies and len(F.bodies[h].reach) < 12)
        fl = flags(F, g)
        loc = "%s:%s" % (b.file, b.line)
        if fl:
            for v in (0, 1):
                args = [v if l in fl else TOP for l in range(1, b.argc + 1)]
                r, back, ev = Spec(F, hook, enter).run(g, args)
                vals = {e[1] for e in ev if e[0] == "load"}
                n += 1
                R.check(vals == {v}, "passed-on", "%s|%d" % (b.nice, v), "%s asked %s passes on %s" % (b.nice, "not to decode" if v else "to decode", fmt(vals)), loc)
        else:
            opts = [l for l in range(1, b.argc + 1) if F.tys(b.lty(l)) == "u32"]
            if F.fns.get(g, {}).get("sym") and opts:
                for v in (0, 1):
                    args = [v if l in opts else TOP for l in range(1, b.argc + 1)]
                    r, back, ev = Spec(F, hook, enter).run(g, args)
                    vals = {e[1] for e in ev if e[0] == "load"}
                    n += 1
                    R.check(vals == {v}, "passed-on", "%s|%d" % (b.nice, v), "%s called with options %s passes on %s" % (b.nice, "OR_OPTIONS_DONT_DECOMPRESS" if v else "OR_OPTIONS_NONE", fmt(vals)), loc)
            else:
                r, back, ev = Spec(F, hook, enter).run(g, [TOP] * b.argc)
                vals = {e[1] for e in ev if e[0] == "load"}
                n += 1
                R.check(vals == {0}, "passed-on", b.nice, "%s, which cannot be asked not to decode, asks for %s" % (b.nice, fmt(vals)), loc)
    # the number C callers pass
    a = F.adts.get("libopenraw::capi::or_options")
    if a:
        d = {v["n"]: int(v.get("discr") or 0) for v in a["v"]}
        R.check(d.get("DONT_DECOMPRESS") == 1 and d.get("NONE", 0) == 0, "passed-on", "or_options", "or_options has other values than NONE=0, DONT_DECOMPRESS=1", "src/capi.rs")
    R.floor("skip", 12)
    R.floor("passed-on", 5)
    R.assume("compressed data is taken apart through bit readers, bit pumps and Huffman tables (types so named) or the bitreader crate; unpacking of fixed-width samples (unpack*) is not decompression")


def fmt(vals):
    return ", ".join(sorted({0: "a request to decode", 1: "a request not to decode", None: "an unknown request"}.get(v, "?") for v in vals)) or "nothing"


def known(args):
    return any(informative(a) for a in args)


def informative(a):
    if a is TOP:
        return False
    if isinstance(a, tuple):
        if a[0] in ("clo", "fn"):
            return True
        if a[0] in ("adt", "tup"):
            return any(informative(x) for x in a[-1])
        return False
    return a in (0, 1)


def root(F, k):
    b = F.bodies[k]
    while b.kind == "closure":
        k = k.rsplit("::{closure#", 1)[0]
        if k not in F.bodies:
            return k
        b = F.bodies[k]
    return k


def flags(F, g):
    b = F.bodies[g]
    return [l for l in range(1, b.argc + 1) if F.types[b.lty(l)]["k"] == "bool"]


def trait_item(F, g):
    for im in F.impls:
        for n, item, ti in im["items"]:
            if item == g:
                return ti
    return None


def reverse(C, sinks, cut):
    """function -> name of a sink it can reach, not through `cut`."""
    rev = {}
    for a, m in C.succ.items():
        for c in m:
            rev.setdefault(c, set()).add(a)
    out = {s: C.F.nice(s) for s in sinks if s not in cut}
    st = list(out)
    while st:
        n = st.pop()
        for p in rev.get(n, ()):
            if p not in out and p not in cut:
                out[p] = out[n]
                st.append(p)
    return out
