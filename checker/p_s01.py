"""S01: the library only reads; results depend on the file alone."""
import cg

# crates the library may call into; all but std are pure computation over values they are given
PURE = {"core", "alloc", "bitreader", "byteorder", "chrono", "fallible_collections", "jpeg_decoder", "lazy_static", "log",
        "multimap", "nalgebra", "num_enum", "num_traits", "once_cell", "rayon", "rayon_core", "std_detect", "target_features",
        "thiserror", "libopenraw", "num_rational", "num_integer", "memchr", "multiversion", "simba", "approx", "libc", "hashbrown", "either", "crossbeam", "typenum", "bitflags", "num_derive", "static_assertions", "paste"}
# std modules without effect on the host
STD_OK = ("collections", "f64", "f32", "ffi", "sync", "path", "error", "os::unix::ffi", "hash", "alloc", "num", "ascii", "panicking", "keyword_docs", "thread::local", "backtrace_rs", "macros", "sys::sync", "sys::thread_local", "rt::panic", "time::Duration")
STD_FN_OK = ("std::fs::OpenOptions::new", "std::fs::OpenOptions::read", "std::fs::OpenOptions::open", "std::fs::File::options", "std::fs::File::open", "std::fs::File::metadata", "std::fs::Metadata::len", "std::fs::File::try_clone")
IO_OK_TAILS = {"read", "read_exact", "read_to_end", "read_to_string", "read_vectored", "seek", "rewind", "stream_position", "seek_relative", "by_ref", "take", "bytes", "chain", "fill_buf", "consume"}
PURE_DENY = ("Utc::now", "Local::now", "::now", "offset::local", "set_logger", "set_boxed_logger", "rand", "getrandom")
CHRONO_DENY = ("now", "Local", "today", "local")
PATH_DENY = {"exists", "try_exists", "is_file", "is_dir", "is_symlink", "metadata", "symlink_metadata", "canonicalize", "read_dir", "read_link"}
PASS = {"as_ref", "deref", "borrow", "into", "from", "as_path", "as_os_str", "as_bytes", "to_owned", "to_path_buf", "clone", "from_bytes", "new", "to_bytes", "from_ptr"}
HASHES = ("hash_map::", "hash_set::", "hash::map::", "hash::set::")
INSENSITIVE = {"count", "any", "all", "min", "max", "len", "is_empty", "size_hint", "clone", "drop", "drop_in_place", "contains", "by_ref", "is_sorted"}
ORDERED_OK = ("HashMap<", "BTreeMap<", "HashSet<", "BTreeSet<", "MultiMap<", "BinaryHeap<")


def last(n):
    return n.split("::")[-1].split("<")[0]


def tys_of_call(F, b, t):
    out = []
    for a in t["a"]:
        ty = b.op_ty(a)
        if ty is not None:
            out.append(ty)
    return out


def from_param(F, b, o, depth=0):
    """The operand is a parameter of the function, looked at through conversions that keep its text."""
    if depth > 12 or o["k"] not in ("copy", "move"):
        return False
    l = o["p"][0] if isinstance(o["p"], list) else o["p"]
    if 1 <= l <= b.argc:
        return True
    d = b.single_def(l)
    if not d:
        return False
    r = d[2]
    if r["k"] == "call":
        return last(F.nice(r.get("f") or "")) in PASS and len(r["a"]) == 1 and from_param(F, b, r["a"][0], depth + 1)
    if r["k"] in ("use", "cast"):
        return from_param(F, b, r["o"], depth + 1)
    if r["k"] in ("ref", "rawptr"):
        return from_param(F, b, {"k": "copy", "p": r["p"]}, depth + 1)
    return False


def has_hash_field(F, ty, seen=None):
    seen = seen if seen is not None else set()
    if ty in seen:
        return False
    seen.add(ty)
    t = F.types[ty]
    if t["k"] == "adt":
        if t["d"].endswith("HashMap") or t["d"].endswith("HashSet"):
            return True
        for a in t["a"]:
            if has_hash_field(F, a, seen):
                return True
        a = F.adts.get(t["d"])
        if a and a.get("local"):
            return any(has_hash_field(F, f["t"], seen) for v in a["v"] for f in v["f"])
        return False
    if t["k"] in ("ref", "ptr", "slice", "array"):
        return has_hash_field(F, t["t"], seen)
    if t["k"] == "tuple":
        return any(has_hash_field(F, a, seen) for a in t["a"])
    return False


_hi = {}


def hash_iter(F, ty, depth=0):
    """The type is, or wraps, an iterator over a hash table."""
    if ty in _hi:
        return _hi[ty]
    t = F.types[ty]
    k = t["k"]
    r = False
    _hi[ty] = False
    if k == "adt":
        d = t["d"]
        if d.split("::")[0] in ("std", "hashbrown", "fallible_collections", "multimap") and ("hash" in d.lower() or "multimap" in d) and "Map" not in d.split("::")[-1] and "Set" not in d.split("::")[-1] and "Entry" not in d and "RandomState" not in d and d.split("::")[-1] not in ("Vacant", "Occupied"):
            r = True
        else:
            r = any(hash_iter(F, a, depth + 1) for a in t["a"])
    elif k in ("ref", "ptr"):
        r = hash_iter(F, t["t"], depth + 1)
    _hi[ty] = r
    return r


def run(F, R):
    R.rule("effect-call", "no reachable function calls into the operating system for anything but opening and reading the file it was given")
    R.rule("file-opened", "the only file opened is the one named by the caller")
    R.rule("foreign-call", "no reachable function calls a foreign (C) function")
    R.rule("write-target", "text and bytes are written only to the writer the caller passed in or to memory")
    R.rule("hash-order", "nothing that leaves a function depends on the iteration order of a hash table")
    R.rule("address", "no result is derived from memory addresses, thread identity or random state")
    C = cg.get(F)
    # the documentation generator is not part of identifying, parsing, dumping or decoding
    skip = {k for k in F.bodies if F.bodies[k].nice.split("::{closure")[0] == "canon::print_models"}
    seen = C.reach([r for r in cg.roots(F, C) if r not in skip], skip)
    nfn = sum(1 for k in seen if F.bodies[k].kind in ("fn", "closure"))
    for k in seen:
        b = F.bodies[k]
        if b.kind not in ("fn", "closure"):
            pass
        for bb, t in b.calls():
            where = "%s:%s" % (b.file, t["l"])
            f = t.get("f")
            if f is None:
                continue
            res = t.get("res")
            name = f if not res or res == "virtual" else res
            nice = F.nice(name)
            crate = name.split("::")[0]
            fi = F.fns.get(name)
            if fi is not None and name not in F.bodies and fi.get("abi", "Rust").startswith("C") and not fi.get("in_trait"):
                R.bad("foreign-call", "%s|%s" % (b.nice, nice), "%s calls the foreign function %s" % (b.nice, nice), where)
                continue
            if crate == "libopenraw":
                continue
            ln = last(nice)
            if crate == "std":
                mod = name[5:]
                ok = nice in STD_FN_OK or any(mod == m or mod.startswith(m + "::") for m in STD_OK)
                if not ok and (nice.startswith("std::io::") or "::io::" in nice or " as std::io::" in nice) and ln in IO_OK_TAILS and "stdio" not in name:
                    ok = True
                if not ok and nice.startswith("<std::fs::File as ") and ln in IO_OK_TAILS:
                    ok = True
                if mod.startswith("path") and ln in PATH_DENY:
                    ok = False
                if nice in ("std::fs::File::open", "std::fs::OpenOptions::open"):
                    R.check(from_param(F, b, t["a"][-1]), "file-opened", b.nice, "%s opens a file other than the one its caller named" % b.nice, where)
                if "RandomState" in nice or "DefaultHasher" in nice:
                    R.bad("address", "%s|%s" % (b.nice, nice), "%s uses random state %s" % (b.nice, nice), where)
                    continue
                R.check(ok, "effect-call", "%s|%s" % (b.nice, nice), "%s calls %s, reached through %s" % (b.nice, nice, C.path(seen, k)), where)
            elif crate not in PURE:
                R.bad("effect-call", "%s|%s" % (b.nice, nice), "%s calls %s of a crate that is not known to be free of effects" % (b.nice, nice), where)
            elif any(d in nice for d in PURE_DENY) and crate not in ("core", "alloc") or (crate == "chrono" and ln in CHRONO_DENY):
                R.bad("effect-call", "%s|%s" % (b.nice, nice), "%s depends on the clock or the environment through %s" % (b.nice, nice), where)
            elif crate == "libc":
                R.bad("foreign-call", "%s|%s" % (b.nice, nice), "%s calls %s" % (b.nice, nice), where)
            elif crate == "core" and ("intrinsics::abort" in name or "new_pointer" in name):
                R.bad("address", "%s|%s" % (b.nice, nice), "%s formats an address or aborts" % b.nice, where)
            else:
                R.ok("effect-call")
            # writers
            if "io::" in name and ("Write" in nice or "io::copy" in nice or "::write" in nice) and crate in ("core", "std", "alloc", "byteorder"):
                tys = [F.tys(x) for x in tys_of_call(F, b, t)]
                tas = [F.tys(a) for a in (t.get("ta") or []) if isinstance(a, int)]
                bad = [x for x in tys + tas if any(w in x for w in ("std::fs::File", "Stdout", "Stderr", "TcpStream", "UdpSocket", "ChildStdin", "UnixStream"))]
                R.check(not bad or "io::copy" in nice and not any("File" in x for x in tas[1:2]), "write-target", "%s|%s" % (b.nice, nice), "%s writes to %s" % (b.nice, ",".join(bad)), where)
            # hash order
            args = [F.tys(x) for x in tys_of_call(F, b, t)]
            rty = F.tys(b.lty(t["d"][0])) if not t["d"][1] else ""
            if any(hash_iter(F, x) for x in tys_of_call(F, b, t)):
                if not t["d"][1] and hash_iter(F, b.lty(t["d"][0])) and ln != "next":
                    R.ok("hash-order")  # an adapter or constructor; its result is judged where it is consumed
                elif ln in INSENSITIVE:
                    R.ok("hash-order")
                elif ln in ("collect", "from_iter", "extend") and (any(o in rty for o in ORDERED_OK) or (ln == "extend" and any(o in args[0] for o in ORDERED_OK))):
                    R.ok("hash-order")
                elif ln in ("collect", "from_iter") and "Vec<" in rty and any(last(F.nice(t2.get("f", ""))).startswith("sort") for _, t2 in b.calls()):
                    R.ok("hash-order")
                elif ln in ("sum", "product") and rty in ("usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize"):
                    R.ok("hash-order")
                else:
                    R.bad("hash-order", "%s|%s" % (b.nice.split("::{closure")[0], ln), "%s consumes a hash table in its iteration order with %s" % (b.nice, ln), where)
            if ("new_debug" in nice) and t.get("ta"):
                for a in t["ta"]:
                    if isinstance(a, int) and has_hash_field(F, a) and "log" not in b.nice:
                        R.check(is_log_only(F, b, bb), "hash-order", "%s|debug" % b.nice, "%s prints a hash table in its iteration order" % b.nice, where)
        for bb in b.reach:
            if b.blocks[bb]["t"]["k"] == "other":
                R.bad("foreign-call", b.nice + "|asm", "%s has inline assembly or an unknown terminator" % b.nice, "%s:%s" % (b.file, b.line))
    R.note("%d reachable functions and closures analysed" % nfn)
    # one opening call: the file named by the caller
    R.floor("effect-call", 2500)
    R.floor("write-target", 60)
    R.floor("file-opened", 1)
    R.check(nfn > 1500, "effect-call", "reachable", "only %d functions reachable" % nfn, "-")
    R.assume("crates other than std are effect free for the functions called here (parsing, arithmetic, logging facade); the log facade prints only through a logger the host installs")
    R.assume("generic code calls back only into trait implementations of the types it is given")


def is_log_only(F, b, bb):
    """Every formatted argument built here flows into a log call: the next call chain in the block reaches log."""
    seen = set()
    st = [bb]
    hops = 0
    while st and hops < 40:
        x = st.pop(0)
        if x in seen:
            continue
        seen.add(x)
        hops += 1
        t = b.blocks[x]["t"]
        if t["k"] == "call":
            n = F.nice(t.get("f") or "")
            if n.startswith("log::"):
                return True
            if "write_fmt" in n or n.endswith("format") or "_print" in n:
                return False
        st.extend(b.succ[x])
    return False
