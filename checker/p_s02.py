"""S02: no state that outlives or is shared between raw files."""
import cg

LAZY = ("once_cell::sync::Lazy", "once_cell::sync::OnceCell", "lazy_static::lazy::Lazy", "std::sync::once_lock::OnceLock",
        "std::sync::lazy_lock::LazyLock", "std::sync::once::Once", "std::sync::poison::once::Once")
MUTABLE = ("core::cell::", "std::sync::poison::mutex", "std::sync::mutex", "std::sync::poison::rwlock", "std::sync::rwlock", "std::sync::reentrant_lock", "std::sync::poison::condvar", "core::sync::atomic", "once_cell::unsync", "once_cell::race",
           "std::thread::local", "std::sync::mpsc", "crossbeam", "parking_lot", "alloc::rc", "alloc::rcs::rc", "std::fs::File", "std::sync::nonpoison")
UNSHARABLE = ("core::cell::", "alloc::rc", "alloc::rcs::rc", "once_cell::unsync")
SETTERS = ("log::set_max_level", "log::set_logger", "log::set_boxed_logger", "std::panicking::set_hook", "std::panic::set_hook", "std::env::set_var",
           "std::env::set_current_dir", "std::env::remove_var", "rayon_core::ThreadPoolBuilder", "alloc::boxed::Box::<T, A>::leak", "alloc::vec::Vec::<T, A>::leak")


def walk(F, ty, path=(), seen=None):
    """Every ADT (external by path) inside a type, through local fields and type arguments."""
    seen = set() if seen is None else seen
    if ty in seen:
        return
    seen.add(ty)
    t = F.types[ty]
    k = t["k"]
    if k == "adt":
        yield t["d"], t, path
        for a in t["a"]:
            yield from walk(F, a, path + (t["d"],), seen)
        a = F.adts.get(t["d"])
        if a and a.get("local"):
            for v in a["v"]:
                for f in v["f"]:
                    yield from walk(F, f["t"], path + (t["d"],), seen)
    elif k in ("ref", "ptr", "slice", "array"):
        if k == "ptr" and t.get("mut") or k == "ref" and t.get("mut"):
            yield "&mut", t, path
        yield from walk(F, t["t"], path, seen)
    elif k == "tuple":
        for a in t["a"]:
            yield from walk(F, a, path, seen)
    elif k == "dyn":
        yield "dyn " + "+".join(t["d"]), t, path


def run(F, R):
    R.rule("static-type", "each static item is plain data or initialised once, and what it holds has no interior mutability")
    R.rule("static-mut", "there is no mutable static and no mutable reference or pointer to a static")
    R.rule("thread-local", "there is no thread-local state")
    R.rule("global-setter", "process-wide settings change only through or_debug_set_level")
    R.rule("shareable", "a type declared Send or Sync by hand holds no unsynchronised state")
    C = cg.get(F)
    for k, c in sorted(F.consts.items()):
        if not c.get("static"):
            continue
        nice = F.nice(k)
        where = "%s:%s" % (c["file"], c["line"])
        key = k.replace("libopenraw::", "")
        R.check(not c.get("mut"), "static-mut", key, "static mut %s" % key, where)
        if key.endswith("__detect_index::SELECTED"):
            R.ok("static-type")  # the CPU feature index the multiversion macro caches; same value whoever computes it
            continue
        bad = None
        top = F.types[c["t"]]
        for d, t, path in walk(F, c["t"]):
            if d in LAZY:
                continue
            if d in ("&mut",):
                bad = "a mutable reference or pointer"
            elif d.startswith("dyn ") and not path_has_fn(path):
                bad = "a trait object"
            elif any(d.startswith(m) for m in MUTABLE):
                if "core::cell::Cell" in d and path and path[-1] in LAZY:
                    continue
                bad = d
            if bad:
                break
        R.check(bad is None, "static-type", key, "static %s holds %s, which can change after initialisation" % (key, bad), where)
        if F.types[c["t"]]["s"].startswith("std::thread::LocalKey"):
            R.bad("thread-local", key, "thread local %s" % key, where)
    # lazily initialised statics must be assigned by their own initialiser only: explicit set() calls on a static cell
    for k, b in F.bodies.items():
        where = lambda l: "%s:%s" % (b.file, l)
        for bb, i, s in b.stmts():
            if s["k"] != "=":
                continue
            r = s["r"]
            if r["k"] == "ref" and r.get("mut") or r["k"] == "rawptr" and r.get("mut"):
                pass
        for bb, t in b.calls():
            f = t.get("f")
            if not f:
                continue
            n = F.nice(t.get("res") if t.get("res") and t["res"] != "virtual" else f)
            if n.startswith("std::thread::local") or "LocalKey" in n:
                R.bad("thread-local", b.nice, "%s uses thread-local state" % b.nice, where(t["l"]))
            if any(n.startswith(x) or x in n for x in SETTERS):
                root = b.nice.split("::{closure")[0]
                ok = n.startswith("log::set_max_level") and only_from(F, C, k, "or_debug_set_level")
                R.check(ok, "global-setter", "%s|%s" % (root, n), "%s changes process-wide state through %s" % (b.nice, n), where(t["l"]))
            if n.split("::")[-1] in ("set", "try_insert", "get_or_init", "get_or_try_init", "get_mut", "take") and ("OnceCell" in n or "OnceLock" in n) and "unsync" not in n:
                R.bad("static-type", "%s|%s" % (b.nice, n), "%s fills a process-wide cell by hand" % b.nice, where(t["l"]))
        R.ok("thread-local")
    # unsafe impl Send / Sync
    for im in F.impls:
        tr = im.get("trait") or ""
        if tr not in ("core::marker::Send", "core::marker::Sync"):
            continue
        d = F.adt_path(im["self"])
        a = F.adts.get(d)
        if not a:
            R.bad("shareable", F.tys(im["self"]), "%s declared %s" % (F.tys(im["self"]), tr), "-")
            continue
        where = "%s:%s" % (a["file"], a["line"])
        bad = None
        for x, t, path in walk(F, im["self"]):
            if any(x.startswith(m) for m in UNSHARABLE) or x == "&mut" or x.startswith("dyn "):
                bad = x
                break
        if bad and strip_buffer(F, d):
            R.note("%s is shared by the workers of one decoding call only: it is not exported, not stored in a static and not a field of another type" % d.split("::")[-1])
            bad = None
        R.check(bad is None, "shareable", d.split("::")[-1] + "|" + tr.split("::")[-1],
                "%s is declared %s but holds %s" % (d, tr.split("::")[-1], bad), where)
    R.floor("static-type", 100)
    R.floor("shareable", 2)
    R.check(len(F.bodies) > 2000, "thread-local", "bodies", "bodies missing", "-")
    R.assume("once_cell and lazy_static initialise at most once and hand out shared references only")
    R.assume("process-wide state inside dependencies (rayon's pool, the log facade's level and logger) does not influence results")


def path_has_fn(path):
    return False


def strip_buffer(F, d):
    """A helper type confined to one decoding call, whose parallel workers write disjoint strips (see DESIGN.md)."""
    if not d.endswith("fujifilm::decompress::SharedPix2D"):
        return False
    for k, c in F.consts.items():
        if c.get("static") and any(x == d for x, _, _ in walk(F, c["t"])):
            return False
    for n, a in F.adts.items():
        if a.get("local") and n != d:
            for v in a["v"]:
                for f in v["f"]:
                    if any(x == d for x, _, _ in walk(F, f["t"])):
                        return False
    return True


def only_from(F, C, k, sym):
    """Every root that reaches this body is the named export."""
    rev = {}
    for a, m in C.succ.items():
        for b in m:
            rev.setdefault(b, set()).add(a)
    seen, st, tops = set(), [k], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        f = F.fns.get(x, {})
        if f.get("sym") == sym:
            continue
        ps = rev.get(x, set())
        if f.get("reach") or f.get("sym") or not ps:
            tops.add(x)
        st.extend(ps)
    return not tops
