"""R03: no division by a value a file can make zero."""
import cg
from expr import X, last
from bounds import B
import inter

ZERO_PANIC = {"chunks": 1, "chunks_exact": 1, "chunks_mut": 1, "chunks_exact_mut": 1, "rchunks": 1, "rchunks_exact": 1, "windows": 1, "step_by": 1, "par_chunks": 1,
              "par_chunks_mut": 1, "par_chunks_exact": 1, "par_chunks_exact_mut": 1, "rem_euclid": 1, "div_euclid": 1, "div_ceil": 1, "next_multiple_of": 1, "ilog2": 0, "ilog10": 0, "div_floor": 1}


def run(F, R):
    R.rule("divisor", "the divisor of every integer division or remainder is a non-zero constant or has been established to be non-zero on every path")
    R.rule("chunk-size", "the chunk, window or step size of every library call that panics on zero is established to be non-zero")
    C = cg.get(F)
    live = C.reach(cg.roots(F, C))
    for k in sorted(live):
        b = F.bodies[k]
        if b.kind not in ("fn", "closure"):
            continue
        x = X.of(F, b)
        for bb in sorted(b.reach):
            blk = b.blocks[bb]
            for s in blk["s"]:
                if s["k"] == "=" and s["r"]["k"] == "bin" and s["r"]["op"] in ("Div", "Rem"):
                    ty = F.types[b.op_ty(s["r"]["b"])]
                    if ty["k"] != "int":
                        continue
                    e = x.op(s["r"]["b"])
                    at = bb
                    for p in b.pred[bb]:  # the compiler's own zero test establishes nothing: judge before it
                        if b.blocks[p]["t"]["k"] == "assert" and b.blocks[p]["t"]["m"] in ("div", "rem"):
                            at = p
                    ok = inter.prove(F, C, b, at, e, lambda B_, e_: B_.nonzero(e_))
                    R.check(ok, "divisor", "%s|%s" % (inter.stable_name(b), inter.show(F, b, e)), "%s divides by %s, which may be zero" % (b.nice, inter.show(F, b, e)), "%s:%s" % (b.file, s["l"]))
            t = blk["t"]
            if t["k"] == "call" and t.get("f"):
                n = last(F.nice(t.get("res") or t["f"]))
                if n in ZERO_PANIC and not (t.get("res") or t["f"]).startswith("libopenraw") and len(t["a"]) > ZERO_PANIC[n]:
                    o = t["a"][ZERO_PANIC[n]]
                    ty = b.op_ty(o)
                    if ty is None or F.types[ty]["k"] != "int":
                        continue
                    e = x.op(o)
                    ok = inter.prove(F, C, b, bb, e, lambda B_, e_: B_.nonzero(e_))
                    R.check(ok, "chunk-size", "%s|%s" % (inter.stable_name(b), inter.show(F, b, e)), "%s calls %s with %s, which may be zero" % (b.nice, n, inter.show(F, b, e)), "%s:%s" % (b.file, t["l"]))
    R.floor("divisor", 40)
    R.assume("values are taken as mathematical integers: arithmetic that wraps around to zero belongs to N04")
