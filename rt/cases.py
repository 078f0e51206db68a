"""Bounded cross-checks that are not plain histories: gen(rng, consts) -> case, run(case) -> message or None."""
import os
import random
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path, PurePosixPath

from . import diff as D
from . import gen as G
from . import model as M
from .diff import mk_policy, mk_mpolicy, mk_view, mk_mview, NodePolicy, VisibilityView
import sandfs.shell as shell_mod
from sandfs.adapters import FileSystemAdapter, MemoryStorageAdapter, StorageEntry
from sandfs.exceptions import ProviderError, SandboxError
from sandfs.nodes import VirtualDirectory, VirtualFile
from sandfs.providers import ProvidedNode
from sandfs.pyexec import PythonExecutor
from sandfs.shell import CommandResult, SandboxShell
from sandfs.vfs import VirtualFileSystem


# --------------------------------------------------------------------------- C08
def gen_view(rng, consts):
    r = rng
    strs = [s for s in consts[0] if s] or ["public"]
    cls = G.CLASSES + r.sample(strs, min(3, len(strs)))
    pr = G.PRINCIPALS + r.sample(strs, min(2, len(strs)))
    pol = [r.random() < .5, r.random() < .5, r.random() < .5, r.choice(cls),
           r.sample(pr, r.choice([0, 0, 1, 2, 3]))]
    segs = [r.choice(["a", "ab", "b", "a.b", "A"]) for _ in range(r.choice([0, 1, 2, 3, 4]))]

    def pref():
        k = r.choice([0, 1, 2, 3, 4])
        base = segs[:k] if r.random() < .7 else [r.choice(["a", "ab", "b"]) for _ in range(k)]
        if base and r.random() < .2:
            base = base[:-1] + [r.choice([base[-1] + "b", base[-1][:-1] or "a"])]
        if r.random() < .2:
            base = base + [r.choice(["a", "ab"])]
        return "/" + "/".join(base)
    view = {}
    if r.random() < .6:
        view["c"] = r.sample(cls, r.choice([0, 1, 2]))
        if r.random() < .4:
            view["c"].append(pol[3])
    if r.random() < .6:
        view["p"] = r.sample(pr, r.choice([0, 1, 2]))
        if pol[4] and r.random() < .4:
            view["p"].append(r.choice(pol[4]))
    if r.random() < .5:
        view["x"] = [pref() for _ in range(r.choice([0, 1, 1, 2, 3]))]
    vals = ["v", "w", 1, 0, None, True, ""]
    meta = {k: r.choice(vals) for k in r.sample(["k", "team", "n", "z"], r.choice([0, 1, 2, 3]))}
    if r.random() < .5:
        view["m"] = {k: (meta.get(k, "v") if r.random() < .6 else r.choice(vals))
                     for k in r.sample(["k", "team", "n", "z"], r.choice([0, 1, 2, 3]))}
    return {"policy": pol, "segs": segs, "meta": meta, "view": view, "dir": r.random() < .4,
            "shape": r.choice(["list", "gen", "path", "tuple"])}


def run_view(case):
    vfs = VirtualFileSystem()
    node = vfs.root
    for i, s in enumerate(case["segs"]):
        last = i == len(case["segs"]) - 1
        child = VirtualFile(name=s) if last and not case["dir"] else VirtualDirectory(name=s)
        node.add_child(child)
        node = child
    node.policy = mk_policy(case["policy"])
    node.metadata = dict(case["meta"])
    v = case["view"]
    shape = {"list": list, "gen": lambda x: (y for y in x), "tuple": tuple,
             "path": list}[case["shape"]]
    kw = {}
    if "c" in v:
        kw["classifications"] = shape(v["c"])
    if "p" in v:
        kw["principals"] = shape(v["p"])
    if "x" in v:
        kw["path_prefixes"] = shape([PurePosixPath(q) for q in v["x"]] if case["shape"] == "path"
                                    else v["x"])
    filters = None
    if "m" in v:
        filters = dict(v["m"])
        kw["metadata_filters"] = filters
    view = VisibilityView(**kw)
    if filters is not None:
        filters["zzz"] = "later"
    m = M.MNode("d", "")
    for s in case["segs"]:
        m = M.MNode("f", s, m)
    m.policy = mk_mpolicy(case["policy"])
    m.meta = dict(case["meta"])
    exp = M.view_allows(mk_mview(v), m)
    exp_p = M.view_allows_policy(mk_mview(v), m.policy)
    for _ in range(2):
        got = view.allows_node(node)
        if bool(got) != exp:
            return "allows_node gave %r, expected %r" % (got, exp)
        got = view.allows(node.policy)
        if bool(got) != exp_p:
            return "allows gave %r, expected %r" % (got, exp_p)
    if node.metadata != case["meta"] or D.pkey(node.policy) != mk_mpolicy(case["policy"]).key():
        return "deciding visibility changed the node"
    return None


# --------------------------------------------------------------------------- C12
def gen_adapter(rng, consts):
    r = rng
    names = ["f", "g", "sub/f", "sub/g", "sub/deep/h", ".hid", "ü"]
    clean = [s for s in consts[0] if s.strip(".") and "/" not in s and "\x00" not in s and len(s) < 20]
    if clean and r.random() < .4:
        names.append(r.choice(clean))
    names = r.sample(names, r.choice([1, 2, 3]))
    ops = []
    texts = [t for t in G.TEXTS] + (r.sample(consts[0], min(2, len(consts[0]))))
    for _ in range(r.choice([3, 6, 10])):
        n = r.choice(names)
        k = r.choices(["write", "read", "list", "delete", "ext", "extdel", "mutate"],
                      [10, 4, 3, 3, 3, 1, 3])[0]
        if k == "write":
            ops.append([k, n, r.choice(texts), r.choice(["cur", "cur", "cur", "+1", "-1", 0, 1, 2])])
        elif k == "ext":
            ops.append([k, n, r.choice(texts)])
        else:
            ops.append([k, n])
    return {"kind": r.choice(["memory", "fs"]), "ops": ops,
            "initial": {n: r.choice(texts) for n in r.sample(names, r.choice([0, 1, len(names)]))}}


class FSModel:
    """FileSystemAdapter: versions start at 0 when first seen and rise when a change is noticed."""

    def __init__(self):
        self.files, self.seen, self.stamp = {}, {}, {}

    def current(self, k):
        if k not in self.files:
            self.seen.pop(k, None)
            return 0
        text, stamp = self.files[k]
        if k not in self.seen:
            self.seen[k] = [0, stamp]
        elif self.seen[k][1] != stamp:
            self.seen[k] = [self.seen[k][0] + 1, stamp]
        return self.seen[k][0]


def run_adapter(case):
    tmp = tempfile.mkdtemp(prefix="vrt")
    try:
        return _run_adapter(case, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run_adapter(case, tmp):
    fs = case["kind"] == "fs"
    clock = [10 ** 18]

    def stamp(path):
        clock[0] += 10 ** 9
        os.utime(path, ns=(clock[0], clock[0]))
        return clock[0]
    m = FSModel()
    root = os.path.join(tmp, "root")
    if fs:
        os.makedirs(root)
        for k, v in case["initial"].items():
            p = os.path.join(root, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", newline="").write(v)
            m.files[k] = (v, stamp(p))
        a = FileSystemAdapter(Path(root))
    else:
        init = dict(case["initial"])
        a = MemoryStorageAdapter(initial=init)
        init["later"] = "x"
        for k, v in case["initial"].items():
            m.files[k] = (v, 0)
            m.seen[k] = [0, 0]
    handed = []
    for op in case["ops"]:
        k, n = op[0], op[1]
        if k == "write":
            cur = m.current(n)
            v = op[3]
            v = cur if v == "cur" else cur + 1 if v == "+1" else cur - 1 if v == "-1" else v
            exists = n in m.files
            ok = (v == cur) if (exists or fs) else True
            try:
                e = a.write(n, op[2], version=v)
                got = True
            except ValueError:
                got = False
            except Exception as exc:
                return "write raised %r" % exc
            if got != ok:
                return "%r with version %r (current %r) %s" % (op, v, cur if exists else None,
                                                               "succeeded" if got else "failed")
            if got:
                if (e.content, e.version) != (op[2], v + 1):
                    return "%r returned %r" % (op, e)
                handed.append(e)
                st = 0
                if fs:
                    st = os.stat(os.path.join(root, n)).st_mtime_ns
                m.files[n] = (op[2], st)
                m.seen[n] = [v + 1, st]
        elif k == "read":
            if n in m.files:
                cur = m.current(n)
                try:
                    e = a.read(n)
                except Exception as exc:
                    return "read of %r raised %r" % (n, exc)
                if (e.content, e.version) != (m.files[n][0], cur):
                    return "read(%r) gave %r, expected %r" % (n, e, (m.files[n][0], cur))
                handed.append(e)
            else:
                try:
                    a.read(n)
                    return "read of missing %r succeeded" % n
                except FileNotFoundError:
                    pass
                except Exception as exc:
                    return "read of missing %r raised %r" % (n, exc)
        elif k == "delete":
            try:
                a.delete(n)
            except Exception as exc:
                return "delete raised %r" % exc
            m.files.pop(n, None)
            m.seen.pop(n, None)
        elif k == "ext" and fs:
            p = os.path.join(root, n)
            if any(x.startswith(n + "/") for x in m.files):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", newline="").write(op[2])
            m.files[n] = (op[2], stamp(p))
        elif k == "extdel" and fs and n in m.files:
            os.unlink(os.path.join(root, n))
            del m.files[n]
        elif k == "mutate" and handed:
            e = handed[-1]
            e.content, e.version = "MUTATED", 77
            if not fs:
                d = a.list()
                d["intruder"] = StorageEntry("x", 1)
                for x in d.values():
                    x.content = "MUTATED"
        if k in ("list", "write", "delete", "mutate"):
            exp = {n: (t, m.current(n)) for n, (t, _) in sorted(m.files.items())}
            try:
                got = {n: (e.content, e.version) for n, e in sorted(a.list().items())}
            except Exception as exc:
                return "list raised %r" % exc
            if got != exp:
                return "after %r list gave %r, expected %r" % (op, got, exp)
    return None


# --------------------------------------------------------------------------- C13
def gen_confine(rng, consts):
    r = rng
    comps = ["in", "sub", "ldir", "lfile", "labs", "lup", "lbroken", "lin", "..", ".", "new", "secret",
             "outside", "root", "outdir", "f", ""]
    ops = []
    for _ in range(r.choice([2, 4, 6])):
        x = r.random()
        if x < .4:
            p = r.choice(["ldir/secret", "lfile", "labs/secret", "lup/outside/secret", "../outside/secret",
                          "sub/../../outside/secret", "ldir/new", "ldir/newdir/f", "lbroken", "../outside/new",
                          "../root-sibling/secret", "../root-sibling/new", "lsib/secret", "lsib/new",
                          "ldir/outdir/f", "lchain/secret", "lchain/new", "@outside/secret", "@outside/new",
                          "/../outside/secret", "//../outside/secret", "ldir/../secret"])
        else:
            p = "/".join(r.choice(comps) for _ in range(r.choice([1, 2, 3, 4])))
            while p.count("..") > 3:
                p = p.replace("..", "f", 1)
            if r.random() < .2:
                p = "/" + p
        ops.append([r.choice(["read", "read", "write", "write", "delete", "list", "exists_read"]), p])
    return {"ops": ops, "rootlink": r.random() < .2, "rel": r.random() < .2, "viavfs": r.random() < .3}


def run_confine(case):
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="vrt"))
    old = os.getcwd()
    try:
        return _run_confine(case, tmp)
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def _tree(top, skip):
    out = {}
    for d, ds, fs in os.walk(top):
        if os.path.realpath(d) == skip or os.path.realpath(d).startswith(skip + "/"):
            ds[:] = []
            continue
        for x in ds:
            if os.path.join(d, x) != skip:
                out[os.path.join(d, x)] = None
        for x in fs:
            p = os.path.join(d, x)
            out[p] = open(p, "rb").read() if os.path.exists(p) else b"<broken>"
    return out


def _run_confine(case, tmp):
    # root is nested deep enough that every path tried stays inside the scratch directory
    base = os.path.join(tmp, "l1", "l2", "l3")
    os.makedirs(os.path.join(base, "outside", "outdir"))
    os.makedirs(os.path.join(base, "root-sibling"))
    root = os.path.join(base, "root")
    os.makedirs(os.path.join(root, "sub"))
    for p in ("outside/secret", "outside/outdir/f", "root-sibling/secret"):
        open(os.path.join(base, p), "w").write("OUTSIDE-SECRET")
    for d in (tmp, os.path.join(tmp, "l1"), os.path.join(tmp, "l1", "l2"), base):
        for n in ("secret", "f", "in", "new"):
            if n != "new":
                open(os.path.join(d, n), "w").write("OUTSIDE-SECRET")
    open(os.path.join(root, "in"), "w").write("inside text")
    open(os.path.join(root, "sub", "f"), "w").write("inside sub")
    L = lambda t, n: os.symlink(t, os.path.join(root, n))
    L(os.path.join(base, "outside"), "ldir")
    L("../outside/secret", "lfile")
    L(os.path.join(base, "outside"), "labs")
    L("..", "lup")
    L("../outside/nowhere", "lbroken")
    L("sub", "lin")
    L("../root-sibling", "lsib")
    os.symlink("../ldir", os.path.join(root, "sub", "back"))
    L("sub/back", "lchain")
    given = root
    if case["rootlink"]:
        given = os.path.join(base, "rootlink")
        os.symlink(root, given)
    if case["rel"]:
        os.chdir(base)
        given = os.path.basename(given)
    before = _tree(tmp, root)
    a = FileSystemAdapter(Path(given))
    for op, p in case["ops"]:
        p = p.replace("@", base + "/")
        real = os.path.realpath(os.path.join(root, p.lstrip("/"))) if p.strip("/") else root
        inside = real == root or real.startswith(root + "/")
        try:
            if op in ("read", "exists_read"):
                r = a.read(p)
                if "OUTSIDE-SECRET" in r.content:
                    return "read(%r) returned a file outside the root" % p
                if not inside:
                    return "read(%r) of a path outside the root was not refused" % p
            elif op == "write":
                v = 0
                try:
                    v = a.read(p).version if inside and os.path.isfile(real) else 0
                except Exception:
                    v = 0
                a.write(p, "new text", version=v)
                if not inside:
                    return "write(%r) outside the root was not refused" % p
            elif op == "delete":
                if real != root:
                    a.delete(p)
                    if not inside:
                        return "delete(%r) outside the root was not refused" % p
            else:
                for k, e in a.list().items():
                    if "OUTSIDE-SECRET" in e.content:
                        return "list() disclosed %r, a file outside the root" % k
        except Exception:
            pass
        after = _tree(tmp, root)
        if after != before:
            d = sorted(set(after.items()) ^ set(before.items()))[:2]
            return "%s(%r) changed files outside the root: %r" % (op, p, [x[0] for x in d])
    if case["viavfs"]:
        vfs = VirtualFileSystem()
        vfs.mount_storage("/m", a)
        for p, n in vfs.walk("/m"):
            if isinstance(n, VirtualFile) and "OUTSIDE-SECRET" in n.read(vfs):
                return "mounting disclosed %s" % p
    return None


# --------------------------------------------------------------------------- C20
CURATED = ("abs all any bool dict enumerate float int len list map max min print range repr reversed "
           "round set sorted str sum tuple zip").split()


def gen_python(rng, consts):
    r = rng
    snippets = [
        "x = 1", "leak = 42\nprint('hi')", "__builtins__['open'] = 1", "__builtins__.clear()",
        "print(sorted(__builtins__))", "vfs.write_file('/w', 'text')", "fs.read_file('/w')",
        "raise ValueError('no')", "tmpl = 'changed'\nmine.append(1)", "tmpl = 0\nnewname = 2",
        "abs = 5\nprint(abs)", "def f():\n    return len([1])\nprint(f())", "open('/x')",
        "eval('1')", "__import__('os')", "exec('1')", "globals()", "del vfs", "print(extra)",
        "import os", "print('a', end='')", "syntax error here", "print(leak)", "print(newname)",
        "vars()", "getattr(vfs, 'pwd')", "compile('1','','eval')", "input()", "type(1)", "object()",
        "__builtins__.update(len=None)\n", "print(len('abc'))", "class A: pass",
        "vfs = None\nfs = None", "print(vfs is fs)", "print(vfs is not None)",
    ]
    return {"runs": [[r.choice(snippets), r.choice([None, None, {"extra": "E"}, {"__builtins__": "REAL"},
                                                    {"vfs": "shadow"}, {}])]
                     for _ in range(r.choice([1, 2, 4, 6]))],
            "builtins": r.choice([None, None, {"hello": "H"}, {"len": "L"}, {}]),
            "template": r.choice([None, None, {"tmpl": "T"}, {}])}


def run_python(case):
    import builtins as real
    import sandfs.pyexec as pe
    vfs = VirtualFileSystem()
    hostb = None if case["builtins"] is None else dict(case["builtins"])
    tmpl = None if case["template"] is None else dict(case["template"])
    if tmpl is not None:
        tmpl["mine"] = [0]
    ex = PythonExecutor(vfs, builtins=hostb, globals_template=tmpl)
    curated = {n: getattr(real, n) for n in CURATED}
    expected = dict(curated, **(case["builtins"] or {}))
    base = dict({"vfs": vfs, "fs": vfs}, **(tmpl or {}))
    seen = {}

    def probe(env_builtins):
        seen["b"] = env_builtins
    for code, extra in case["runs"]:
        if extra and extra.get("__builtins__") == "REAL":
            extra = {"__builtins__": real.__dict__}
        given = None if extra is None else dict(extra)
        # what the snippet sees before its own first statement
        kw = dict(extra or {})
        kw["_probe"] = probe
        seen.clear()
        out_before = sys.stdout
        try:
            res = ex.run("_probe(__builtins__ if __builtins__.__class__ is {}.__class__ else None)\n"
                         "_names = list(__builtins__)", extra_globals=kw)
        except Exception as exc:
            return "probe failed: %r" % exc
        b = seen.get("b")
        if not isinstance(b, dict) or set(b) != set(expected):
            return "builtins are %r" % (None if b is None else sorted(set(b) ^ set(expected)),)
        for k, v in expected.items():
            if b[k] is not v and b[k] != v:
                return "builtin %r is %r" % (k, b[k])
        vis = dict(base, **(extra or {}))
        vis["_probe"] = probe
        vis.pop("__builtins__", None)
        extra_names = set(res.globals) - set(vis) - {"_names"}
        if extra_names or any(res.globals[k] is not vis[k] for k in vis if k in res.globals) or (
                set(vis) - set(res.globals)):
            return "a fresh snippet saw globals %r" % sorted(set(res.globals) ^ set(vis) - {"_names"})
        if "__builtins__" in res.globals:
            return "the returned globals carry __builtins__"
        try:
            res = ex.run(code, extra_globals=extra)
            ok = True
        except BaseException as exc:
            ok, err = False, exc
        if sys.stdout is not out_before:
            sys.stdout = out_before
            return "stdout stays redirected after %r" % code
        if extra != given:
            return "run changed the caller's extra globals: %r" % (extra,)
        if ok:
            if code == "x = 1" and res.globals.get("x") != 1:
                return "names defined by a snippet are not returned"
            if code.startswith("leak") and (res.globals.get("leak") != 42 or res.stdout != "hi\n"):
                return "snippet result lost: %r" % (res,)
            if code == "print(sorted(__builtins__))" and res.stdout != str(sorted(expected)) + "\n":
                return "builtins %r" % res.stdout
            for w, probe_code in (("open", "open("), ("eval", "eval("), ("__import__", "__import__"),
                                  ("exec", "exec("), ("globals", "globals("), ("vars", "vars("),
                                  ("getattr", "getattr("), ("compile", "compile("), ("input", "input("),
                                  ("type", "type("), ("object", "object("), ("x", "import os"),
                                  ("x", "print(leak)"), ("x", "print(newname)"), ("x", "class A")):
                if code.startswith(probe_code) and w not in expected:
                    return "%r ran although %s is not available" % (code, w)
        if not isinstance(getattr(pe, "_ALLOWED_BUILTINS", {}), dict):
            continue
        if tmpl is not None and set(tmpl) != set(case["template"]) | {"mine"}:
            return "the caller's template was modified"
        if hostb is not None and hostb != case["builtins"]:
            return "the caller's builtins were modified"
    ex2 = PythonExecutor(VirtualFileSystem())
    res = ex2.run("print(sorted(__builtins__))")
    if res.stdout != str(sorted(curated)) + "\n":
        return "a new executor starts with builtins %r" % res.stdout
    return None


# --------------------------------------------------------------------------- C21
def gen_dynamic(rng, consts):
    g = G.Gen(rng, {"ops": {}}, consts)
    r = rng
    spec = {r.choice(["p", "q", "r", "s"]): g.provided(2) for _ in range(r.choice([1, 2, 3]))}
    return {"spec": spec, "existing": {n: r.choice(["f", "d"]) for n in
                                       r.sample(["p", "q", "z"], r.choice([0, 1, 2]))},
            "fail": r.choice([0, 0, 1, 2]), "bad": r.random() < .15,
            "first": r.choice(["ls", "read", "exists", "walk", "tree", "find", "iter", "search", "write"]),
            "depth": r.choice([0, 1, 2])}


def run_dynamic(case):
    real, mod = D.Real(), D.Mod()
    vfs = real.vfs
    base = "/".join(["d%d" % i for i in range(case["depth"])] + ["dyn"])
    base = "/" + base
    vfs.mkdir(base, parents=True)
    d = vfs.get_node(base)
    for n, k in case["existing"].items():
        if k == "f":
            vfs.write_file(base + "/" + n, "existing " + n)
        else:
            vfs.mkdir(base + "/" + n)
    kept = dict(d.children)
    calls = []
    left = [case["fail"]]

    def loader(ctx):
        calls.append((str(ctx.path), dict(ctx.metadata), ctx.vfs is vfs))
        if left[0] > 0:
            left[0] -= 1
            raise RuntimeError("loader down")
        out = {k: real.provided(v) for k, v in case["spec"].items()}
        return out
    d.metadata["tag"] = "T"
    vfs.mount_directory(base, loader, metadata={"m": 1})
    if calls:
        return "the loader ran before it was needed"

    def use(how):
        if how == "ls":
            vfs.ls(base)
        elif how == "read":
            vfs.exists(base + "/nosuch")
        elif how == "exists":
            vfs.exists(base + "/p")
        elif how == "walk":
            list(vfs.walk("/"))
        elif how == "tree":
            vfs.tree("/")
        elif how == "find":
            vfs.glob(base + "/*")
        elif how == "iter":
            list(vfs.iter_files("/"))
        elif how == "search":
            try:
                vfs.search(D.mk_query({"query": "zzz", "regex": False, "ignore_case": False,
                                       "path_prefix": None}))
            except ProviderError:
                pass
        else:
            vfs.write_file(base + "/written", "w")
    for i in range(case["fail"]):
        try:
            use(case["first"])
            return "a failing loader did not surface"
        except RuntimeError:
            pass
        except Exception as exc:
            pass
        if len(calls) != i + 1:
            return "after %d failures the loader ran %d times" % (i + 1, len(calls))
        if set(d.children) != set(kept):
            return "a failing loader left entries %r" % sorted(d.children)
    try:
        use(case["first"])
    except Exception as exc:
        return "%s raised %r" % (case["first"], exc)
    if len(calls) != case["fail"] + 1:
        return "the loader ran %d times, expected %d" % (len(calls), case["fail"] + 1)
    for _ in range(2):
        use("ls")
        use("walk")
    if len(calls) != case["fail"] + 1:
        return "a loaded directory called its loader again"
    if calls[-1] != (base, {"tag": "T", "m": 1}, True):
        return "loader context %r" % (calls[-1],)
    exp = mod.m
    exp.mkdir(base, True, True)
    dn = exp.find(base)
    for n, k in case["existing"].items():
        c = M.MNode(k, n, dn)
        if k == "f":
            c.text, c.version = "existing " + n, 1
        dn.children[n] = c
    dn.meta = {"tag": "T", "m": 1}
    dn.loader, dn.loaded = mod.loader(case["spec"]), False
    if case["first"] == "write":
        exp.write_file(base + "/written", "w")
    rd, bad, _ = real.dump()
    if bad:
        return bad[0]
    md = mod.dump()
    if rd != md:
        for p in sorted(set(rd) | set(md)):
            if rd.get(p) != md.get(p):
                return "%s is %r, expected %r" % (p, rd.get(p), md.get(p))
    for n, node in kept.items():
        if d.children.get(n) is not node:
            return "existing entry %s was replaced" % n
    # provider files: called on every read, with the right context
    for p, node in list(vfs.walk("/")):
        if isinstance(node, VirtualFile) and not case["spec"].get("zz"):
            want = exp.look(M.normalize((), str(p)))
            real.calls.clear()
            for i in range(2):
                try:
                    got = vfs.read_file(p)
                    if want.provider is None and real.calls:
                        return "provider called for a plain file"
                except ProviderError:
                    got = D.FAIL
                except SandboxError:
                    if node.policy.readable:
                        return "reading %s failed" % p
                    got = None
                except Exception as exc:
                    return "reading %s raised %r" % (p, exc)
                if got is None:
                    continue
                try:
                    e = exp.text(want)
                except M.Refused:
                    e = D.FAIL
                if got != e:
                    return "read of %s gave %r, expected %r" % (p, got, e)
                if want.provider is not None and len(real.calls) != i + 1:
                    return "provider of %s was called %d times for %d reads" % (
                        p, len(real.calls), i + 1)
                if real.calls and real.calls[-1] != (str(p), True):
                    return "provider context %r for %s" % (real.calls[-1], p)
    return None
