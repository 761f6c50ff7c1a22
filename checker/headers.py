"""The public C headers, parsed with clang (syntax tree, no text matching)."""
import glob, json, os, subprocess


class Headers:
    def __init__(self, repo):
        self.dir = os.path.join(repo, "include")
        self.files = sorted(os.path.basename(p) for p in glob.glob(self.dir + "/libopenraw/*.h"))
        src = "#include <stdint.h>\n#include <stddef.h>\n#include <sys/types.h>\n" + "#include <libopenraw/libopenraw.h>\n" + "".join(
            '#include <libopenraw/%s>\n' % f for f in self.files if f not in ("libopenraw.h", "exif.h"))
        p = subprocess.run(["clang", "-x", "c", "-", "-I", self.dir, "-fsyntax-only", "-Xclang", "-ast-dump=json"],
                           input=src, capture_output=True, text=True)
        if p.returncode != 0:
            raise SystemExit("the public headers do not parse: " + p.stderr[:2000])
        self.ast = json.loads(p.stdout)
        self.fns = {}
        self.enums = {}
        self.typedefs = {}
        self.structs = {}
        self.globals = {}
        cur = None
        self.enum_by_id = {}
        for n in self.ast["inner"]:
            loc = n.get("loc", {})
            for l in (loc, loc.get("spellingLoc", {}), loc.get("expansionLoc", {})):
                if "file" in l:
                    cur = l["file"]
            if cur is None or not cur.startswith(self.dir):
                if n["kind"] == "TypedefDecl":
                    self.typedefs[n["name"]] = (n["type"].get("desugaredQualType", n["type"]["qualType"]), None)
                continue
            f = os.path.basename(cur)
            line = loc.get("line") or loc.get("expansionLoc", {}).get("line")
            if n["kind"] == "FunctionDecl":
                ps = [c for c in n.get("inner", []) if c["kind"] == "ParmVarDecl"]
                ret = n["type"]["qualType"].split("(")[0].strip()
                self.fns[n["name"]] = {"file": f, "ret": ret, "params": [(c.get("name"), c["type"]["qualType"]) for c in ps],
                                       "inline": n.get("storageClass") == "static" or n.get("inline", False), "line": line}
            elif n["kind"] == "EnumDecl":
                vals = []
                nxt = 0
                for c in n.get("inner", []):
                    if c["kind"] != "EnumConstantDecl":
                        continue
                    v = const_of(c)
                    if v is None:
                        v = nxt
                    nxt = v + 1
                    vals.append((c["name"], v))
                self.enum_by_id[n["id"]] = vals
                if n.get("name"):
                    self.enums[n["name"]] = (f, vals)
                else:
                    self.enums["#" + n["id"]] = (f, vals)
            elif n["kind"] == "TypedefDecl":
                self.typedefs[n["name"]] = (n["type"].get("desugaredQualType", n["type"]["qualType"]), f)
                e = owned_tag(n)
                if e in self.enum_by_id:
                    self.enums.pop("#" + e, None)
                    self.enums[n["name"]] = (f, self.enum_by_id[e])
            elif n["kind"] == "VarDecl":
                self.globals[n["name"]] = (f, n["type"]["qualType"])

    def resolve(self, q, depth=0):
        """Canonical spelling of a type: typedefs looked through except enums and struct tags."""
        q = q.strip()
        if depth > 20:
            return q
        if q.endswith("*"):
            return self.resolve(q[:-1], depth + 1) + " *"
        if q.endswith("const"):
            return self.resolve(q[:-5], depth + 1)
        if q.startswith("const "):
            return self.resolve(q[6:], depth + 1)
        if q in self.enums:
            return "enum " + q
        if q.startswith("enum "):
            return q
        if q in self.typedefs:
            d = self.typedefs[q][0]
            if d == q:
                return q
            return self.resolve(d, depth + 1)
        return q

    def param_handle(self, sym, i):
        f = self.fns.get(sym)
        if not f or i >= len(f["params"]):
            return None
        return f["params"][i][1].replace("const ", "").strip()

    def handle_given(self, sym, i):
        """The handle type a function returns (i None) or stores through parameter i."""
        f = self.fns.get(sym)
        if not f:
            return None
        if i is None:
            return f["ret"]
        if i >= len(f["params"]):
            return None
        q = f["params"][i][1].strip()
        return q[:-1].strip() if q.endswith("*") else q


def owned_tag(n):
    for c in n.get("inner", []):
        if "ownedTagDecl" in c:
            return c["ownedTagDecl"]["id"]
        if "decl" in c and c["decl"].get("kind") == "EnumDecl":
            return c["decl"]["id"]
        r = owned_tag(c)
        if r:
            return r
    return None


def const_of(c):
    for x in c.get("inner", []):
        if x["kind"] == "ConstantExpr" and "value" in x:
            return int(x["value"])
        r = const_of(x)
        if r is not None:
            return r
    return None


_cache = {}


def load(repo):
    if repo not in _cache:
        _cache[repo] = Headers(repo)
    return _cache[repo]


if __name__ == "__main__":
    H = load("/repo")
    for n, f in sorted(H.fns.items()):
        print(n, f)
    for n, e in sorted(H.enums.items()):
        print(n, e[0], e[1][:5], len(e[1]))
