"""T01: file type tables agree with one another."""
import re
import tables, cg
from tables import TOP, is_adt, key

VARIANT_OF = {"Gpr": "Dng", "Nrw": "Nef", "Rw": "Rw2", "Sr2": "Arw"}
NOT_RAW = {"Jpeg", "Tiff", "Unknown", "Test"}


def tname(v):
    return v[3] if is_adt(v) and v[1].endswith("::Type") else None


def eval_fn(F, bid, args):
    return tables.Eval(F).body(F.bodies[bid], args)


def compared_strings(F, b):
    """The string constants a function compares its argument with (match arms)."""
    out = []
    for bb, t in b.calls():
        if t.get("f") and F.nice(t["f"]).split("::")[-1] in ("eq", "ne"):
            for a in t["a"]:
                v = tables.norm(a.get("v")) if a["k"] == "const" and a.get("v") is not None else None
                if isinstance(v, str):
                    out.append(v)
                elif a["k"] != "const":
                    d = b.single_def(a["p"][0])
                    if d and d[2].get("k") == "use" and d[2]["o"]["k"] == "const":
                        v = tables.norm(d[2]["o"].get("v"))
                        if isinstance(v, str):
                            out.append(v)
    return out


def decoder_adt(F, fid, depth=0, seen=None):
    """The RawFile implementation a factory function builds: what is converted to the trait object it returns."""
    seen = seen if seen is not None else set()
    if fid in seen or fid not in F.bodies or depth > 4:
        return set()
    seen.add(fid)
    b = F.bodies[fid]
    out = set()
    for _, _, s in b.stmts():
        if s["k"] == "=" and s["r"]["k"] == "cast" and "Unsize" in s["r"]["c"]:
            ts = F.types[s["r"]["t"]]
            if "RawFile" in F.tys(s["r"]["t"]) and "dyn" in F.tys(s["r"]["t"]):
                ty = b.op_ty(s["r"]["o"])
                t = F.types[ty]
                if t["k"] == "adt" and t["a"]:
                    inner = F.types[t["a"][0]]
                    if inner["k"] == "adt":
                        out.add(inner["d"])
    if not out:
        for _, t in b.calls():
            n = t.get("res") or t.get("f")
            if n in F.bodies:
                out |= decoder_adt(F, n, depth + 1, seen)
    return out


def reported_type(F, adtp):
    for im in F.impls:
        if not im["trait"].endswith("RawFileImpl") and not im["trait"].endswith("RawFile"):
            continue
        t = F.types[im["self"]]
        if t["k"] == "adt" and t["d"] == adtp:
            for it in im["items"]:
                if it[0] == "type_" and it[1] in F.bodies:
                    return eval_fn(F, it[1], [TOP]), it[1]
    return None, None


def run(F, R):
    R.rule("table-known", "the values a file type table will hold are compile-time constants the analysis can determine")
    R.rule("decoder", "every type named by an extension, a MIME type or content recognition has a registered decoder")
    R.rule("decoder-type", "the decoder registered for a type reports that type, or the format it is a variant of")
    R.rule("mime", "every raw format a decoder reports has a MIME type")
    R.rule("unique", "each extension (lower case), MIME type and registered type occurs once in its table")
    R.rule("inverse", "the MIME tables in the two directions, and the lists made from them, agree")
    R.rule("named-for", "an extension or MIME type that is a type's own name stands for that type")
    R.rule("lookup", "the functions that look up an extension, a MIME type or a type answer what the table says, and nothing for what is in no table")
    R.rule("round-trip", "mapping an enumeration value to its name and the name back returns the value, and names are distinct")
    T = tables.all_tables(F)

    def tab(name):
        c = [t for k, t in T.items() if k.split("::")[-1] == name]
        if not c or not isinstance(c[0].value, tables.Table) or tables.has_top(c[0].value):
            R.bad("table-known", name, "the table %s cannot be found or determined from the source" % name, "%s:%s" % (c[0].file, c[0].line) if c else "-")
            return None, "-"
        R.ok("table-known")
        return c[0].pairs, "%s:%s" % (c[0].file, c[0].line)

    fac, wf = tab("FACTORY_MAP")
    ext, we = tab("EXT_TO_TYPE")
    t2m, wt = tab("TYPE_TO_MIME")
    m2t, wm = tab("MIME_TO_TYPE")
    if None in (fac, ext, t2m, m2t):
        return
    names = {}
    tadt = next((p for p in F.adts if p == "libopenraw::Type"), None)
    # --- names
    for name_of in [im for im in F.impls if im["trait"] == "core::convert::From" or im["trait"].endswith("convert::From")]:
        pass
    pairs = {}
    for im in F.impls:
        if not im["trait"].endswith("convert::From"):
            continue
        for it in im["items"]:
            b = F.bodies.get(it[1])
            if b is None or it[0] != "from":
                continue
            at, rt = b.lty(1), b.lty(0)
            a, r = F.types[at], F.types[rt]
            if a["k"] == "adt" and F.adts.get(a["d"], {}).get("kind", "").lower() == "enum" and F.tys(rt) in ("std::string::String", "alloc::string::String", "&'static str", "&str", "String"):
                pairs.setdefault(a["d"], {})["to"] = it[1]
            if F.tys(at) in ("&str", "&'_ str") or (a["k"] == "ref" and F.types[a["t"]]["k"] == "str"):
                if r["k"] == "adt" and F.adts.get(r["d"], {}).get("kind", "").lower() == "enum":
                    pairs.setdefault(r["d"], {})["from"] = it[1]
    for e, pr in sorted(pairs.items()):
        if "to" not in pr or "from" not in pr:
            continue
        b = F.bodies[pr["to"]]
        fb = F.bodies[pr["from"]]
        where = "%s:%s" % (b.file, b.line)
        seen = {}
        for i, v in enumerate(F.adts[e]["v"]):
            val = tables.adt(e, i, v["n"], [])
            s = eval_fn(F, pr["to"], [val])
            if not isinstance(s, str):
                R.bad("round-trip", "%s|%s|name" % (e, v["n"]), "the name of %s::%s cannot be determined" % (e, v["n"]), where)
                continue
            if e == "libopenraw::Type":
                names[v["n"]] = s
            if s in seen:
                R.bad("round-trip", "%s|%s|dup" % (e, v["n"]), "%s::%s and %s have the same name %r" % (e, v["n"], seen[s], s), where)
            seen[s] = v["n"]
            back = eval_fn(F, pr["from"], [s])
            R.check(is_adt(back) and back[3] == v["n"], "round-trip", "%s|%s" % (e, v["n"]),
                    "%s::%s is named %r, which maps back to %s" % (e, v["n"], s, back[3] if is_adt(back) else "an unknown value"), "%s:%s" % (fb.file, fb.line))
        for s in compared_strings(F, fb):
            v = eval_fn(F, pr["from"], [s])
            R.check(s in seen and is_adt(v) and seen[s] == v[3], "round-trip", "%s|str|%s" % (e, s), "%r maps to %s, which is named differently" % (s, v[3] if is_adt(v) else "?"), "%s:%s" % (fb.file, fb.line))
    byname = {s: n for n, s in names.items()}
    # --- factory
    regs = {}
    for k, v in fac:
        n = tname(k)
        R.check(n is not None and n not in regs, "unique", "factory|%s" % n, "type %s is registered twice" % n, wf)
        regs[n] = v
    reported = {}
    for n, v in sorted(regs.items()):
        fid = v[1] if isinstance(v, tuple) and v[0] in ("fn", "closure") else None
        ad = decoder_adt(F, fid) if fid else set()
        if len(ad) != 1:
            R.bad("decoder-type", n, "the decoder registered for %s cannot be determined" % n, wf)
            continue
        ad = next(iter(ad))
        rt, rid = reported_type(F, ad)
        rn = tname(rt) if rt is not None else None
        reported.setdefault(rn, ad)
        R.check(rn in (n, VARIANT_OF.get(n)), "decoder-type", n, "the decoder registered for %s, %s, reports %s" % (n, ad.split("::")[-1], rn), wf)
    # --- reachable types
    def has_decoder(n, what, where):
        R.check(n in regs, "decoder", "%s|%s" % (what, n), "%s names the type %s, which has no registered decoder" % (what, n), where)
    exts = {}
    for k, v in ext:
        n = tname(v)
        R.check(isinstance(k, str) and k == k.lower() and k.isascii(), "unique", "ext-case|%s" % k, "extension %r is not lower case: it is never matched" % (k,), we)
        R.check(k not in exts, "unique", "ext|%s" % k, "extension %r occurs twice" % (k,), we)
        exts[k] = n
        has_decoder(n, "extension " + str(k), we)
        own = byname.get(str(k).upper())
        if own and own in regs:
            R.check(own == n or VARIANT_OF.get(own) == n, "named-for", "ext|%s" % k, "extension %r stands for %s instead of %s" % (k, n, own), we)
    def mimes(ps, flip, where, what):
        d, seen = {}, {}
        for a, b_ in ps:
            t, m = (b_, a) if flip else (a, b_)
            n = tname(t)
            R.check(n not in d, "unique", "%s|%s" % (what, n), "type %s has two MIME types" % n, where)
            R.check(m not in seen, "unique", "%s|%s" % (what, m), "MIME type %s names two types" % m, where)
            d[n], seen[m] = m, n
            last = re.split(r"[-/]", str(m))[-1].upper()
            if last in byname:
                R.check(byname[last] == n, "named-for", "%s|%s" % (what, m), "MIME type %s stands for %s" % (m, n), where)
        return d
    d1 = mimes(t2m, False, wt, "mime")
    d2 = mimes(m2t, True, wm, "mime-to-type")
    R.check(d1 == d2, "inverse", "maps", "TYPE_TO_MIME and MIME_TO_TYPE differ: %s" % sorted(set(map(str, d1.items())) ^ set(map(str, d2.items())))[:4], wm)
    for n in d1:
        has_decoder(n, "MIME type " + str(d1[n]), wt)
    mt = [t for k, t in T.items() if k.split("::")[-1] == "MIME_TYPES"]
    if mt and isinstance(mt[0].value, tables.Seq) and not tables.has_top(mt[0].value):
        R.check(sorted(mt[0].value.items) == sorted(d1.values()), "inverse", "list", "the list of MIME types differs from the table", "%s:%s" % (mt[0].file, mt[0].line))
    for rn, ad in sorted((str(a), b) for a, b in reported.items()):
        if rn not in NOT_RAW:
            R.check(rn in d1, "mime", rn, "%s reports the type %s, which has no MIME type" % (ad.split("::")[-1], rn), wt)
    # --- the list of extensions
    el = [t for k, t in T.items() if k.split("::")[-1] == "EXTENSIONS"]
    if el:
        v = tables.Lookup(F, {}).body(el[0].body, [("closure", el[0].body.id, [])] if el[0].body.kind == "closure" else [])
        if isinstance(v, tables.Seq) and not tables.has_top(v):
            w = "%s:%s" % (el[0].file, el[0].line)
            for e in v.items:
                R.check(e in exts, "inverse", "extensions|%s" % e, "the list of extensions has %r, which no table knows" % (e,), w)
            for e, n in exts.items():
                if n not in NOT_RAW:
                    R.check(e in v.items, "inverse", "extensions|%s|listed" % e, "extension %r of %s is not in the list of extensions" % (e, n), w)
    # --- the functions that look the tables up
    known = [(k, t.value) for k, t in T.items() if isinstance(t.value, (tables.Table, tables.Seq)) and not tables.has_top(t.value)]

    def look(bid, arg):
        return tables.Lookup(F, dict(known)).body(F.bodies[bid], [arg])
    told = 0
    for what, ps, argty, ret, wrong in (("extension", ext, "&str", "libopenraw::Type", "no-such-extension"), ("MIME type", m2t, "&str", "libopenraw::Type", "no/such-type"), ("type", t2m, "Type", "&str", None)):
        tn = {"extension": "EXT_TO_TYPE", "MIME type": "MIME_TO_TYPE", "type": "TYPE_TO_MIME"}[what]
        for bid, b in sorted(F.bodies.items()):
            if b.kind != "fn" or b.argc != 1 or not takes(F, b, what) or not gives(F, b, what):
                continue
            nm = last_(b.nice)
            if what != "type" and ("mime" in nm.lower()) != (what == "MIME type"):
                continue
            where = "%s:%s" % (b.file, b.line)
            paths = takes_path(F, b)
            for k, v in ps:
                forms = [k] if not paths else ["dir.d/name." + k, "NAME." + k.upper(), "a.b." + k.capitalize()]
                for form in forms:
                    r = look(bid, form)
                    if r is TOP or r == TOP or not is_adt(r) or tables.has_top(r):
                        continue
                    told += 1
                    got = r[4][0] if r[4] else None
                    R.check(got is not None and key(got) == key(v), "lookup", "%s|%s" % (b.nice, form if isinstance(form, str) else tname(form)),
                            "%s gives %s for %s, the table says %s" % (b.nice, show(got), show(form), show(v)), where)
            if wrong:
                r = look(bid, wrong if not paths else "a." + wrong)
                if is_adt(r):
                    told += 1
                    R.check(not r[4], "lookup", "%s|unknown" % b.nice, "%s gives %s for an unknown %s" % (b.nice, show(r[4] and r[4][0]), what), where)
    R.note("%d answers of the lookup functions were determined" % told)
    # --- content recognition
    tc = [b for b in F.bodies.values() if b.kind == "fn" and b.nice.split("::")[-1] == "type_for_content"]
    n_content = set()
    C = cg.get(F)
    for b in tc:
        # Type values put into a Some(..)
        for body in [F.bodies[k] for k in C.reach([b.id]) if F.bodies[k].nice.startswith("identify::") or F.bodies[k].id.startswith(b.id)]:
            for _, _, s in body.stmts():
                if s["k"] == "=" and s["r"]["k"] == "agg" and s["r"]["ak"] == "adt" and s["r"]["d"].endswith("option::Option") and s["r"]["ops"]:
                    o = s["r"]["ops"][0]
                    ty = body.op_ty(o)
                    if ty is None or F.types[ty]["k"] != "adt" or F.types[ty]["d"] != "libopenraw::Type":
                        continue
                    if o["k"] == "const":
                        v = tables.norm(o.get("v"))
                        if tname(v):
                            n_content.add((tname(v), "%s:%s" % (body.file, s["l"])))
                    else:
                        for _, _, r in [(d[0], d[1], d[2]) for d in body.defs.get(o["p"][0], [])]:
                            if r["k"] == "agg" and r.get("n"):
                                n_content.add((r["n"], "%s:%s" % (body.file, s["l"])))
                            elif r["k"] == "use" and r["o"]["k"] == "const" and tname(tables.norm(r["o"].get("v"))):
                                n_content.add((tname(tables.norm(r["o"]["v"])), "%s:%s" % (body.file, s["l"])))
    for n, w in sorted(n_content):
        has_decoder(n, "content recognition", w)
    R.check(len({n for n, _ in n_content}) >= 8, "decoder", "content", "only %d types found in content recognition" % len(n_content), "-")
    R.floor("decoder", 40)
    R.floor("decoder-type", 15)
    R.floor("mime", 10)
    R.floor("round-trip", 40)
    R.note("%d decoders, %d extensions, %d MIME types, %d types recognised by content" % (len(regs), len(exts), len(d1), len({n for n, _ in n_content})))


def takes(F, b, what):
    t = b.lty(1)
    s = F.tys(t)
    if what == "type":
        return F.types[t].get("d") == "libopenraw::Type"
    return s.endswith("&str") or s.startswith("&") and F.types[F.types[t]["t"]]["k"] == "str" or takes_path(F, b)


def takes_path(F, b):
    t = F.types[b.lty(1)]
    while t["k"] == "ref":
        t = F.types[t["t"]]
    return t["k"] == "param" or t["s"].endswith("path::Path")


def gives(F, b, what):
    t = F.types[b.lty(0)]
    if t["k"] != "adt" or not t["d"].endswith("option::Option"):
        return False
    x = F.types[t["a"][0]]
    if what == "type":
        return x["k"] == "ref" and F.types[x["t"]]["k"] == "str"
    return x.get("d") == "libopenraw::Type"


def last_(n):
    return n.split("::")[-1]


def show(v):
    return "nothing" if v is None else tname(v) or repr(v)
