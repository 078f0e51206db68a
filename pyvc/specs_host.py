"""Contracts: the host directory adapter."""
from .specs import *
from .builtins_ import hres, hin, hparent, host_fs

FSA = ("ref", "FileSystemAdapter")
ENTRY = ("ref", "StorageEntry")
DI = ("dict", "str", "int")
hloc = z3.Function("hloc", Obj, S, Obj)          # where the adapter keeps the entry of that name
decoded = z3.Function("decoded", S, S)
hescapes = z3.Function("hescapes", Obj, S, z3.BoolSort())      # the adapter refuses that name
escapes = lambda x: hescapes(pre(x).f("F.root", x.t("self")), x.t("path"))
DD, DV = "dict<str,int>.dom", "dict<str,int>.val0"
VERS = {DD, DV}
HOST = {"O.@file", "O.@dir", "O.@text", "O.@mtime"}


class FS:
    """The adapter and the host in one state."""
    def __init__(self, h, me):
        self.h = h
        self.root, self.res = h.f("F.root", me), h.f("F._root_resolved", me)
        self.v, self.m = h.f("F._versions", me), h.f("F._mtimes", me)

    def at(self, f, loc):
        return Select(self.h.f("O.@" + f, host_fs), loc)

    def exists(self, loc):
        return Or(self.at("file", loc), self.at("dir", loc))

    def has(self, d, k):
        return Select(self.h.f(DD, d), k)

    def get(self, d, k):
        return Select(self.h.f(DV, d), k)

    def cur(self, k, loc):
        """The current version of the entry k kept at loc."""
        return If(And(self.exists(loc), self.has(self.v, k)), If(
            And(self.has(self.m, k), self.get(self.m, k) == self.at("mtime", loc)), self.get(self.v, k), self.get(self.v, k) + 1),
            IntVal(0))


def fs(x, h):
    return FS(h, x.t("self"))


def inside(loc, r):
    """A real location below the root (or the root itself)."""
    return hin(loc, r)


def host_axioms(x):
    o, p, q = z3.Consts("o p q", Obj)
    return [ForAll([o], hres(hres(o)) == hres(o), patterns=[hres(o)]), ForAll([o], hin(o, o), patterns=[hres(o)]),
            # the parent of a location below another one is below it too, or it is that one
            ForAll([o, p], Implies(hin(o, p), Or(o == p, hin(hparent(o), p))), patterns=[z3.MultiPattern(hin(o, p), hparent(o))]),
            ForAll([o], Implies(hres(o) == o, hres(hparent(o)) == hparent(o)), patterns=[hparent(o)])]


def fs_setup(x):
    h, s = pre(x), x.pre
    f = fs(x, h)
    x.eng.assumed.add("host: symbolic links do not change while an adapter method runs; a location p/.. or a link is what pathlib's "
                      "resolve says; an existing directory is not changed by mkdir(exist_ok=True)")
    s.assume(*host_axioms(x))
    if not x.contract.q.endswith("__post_init__"):
        # established by __post_init__, kept by every method (frame)
        s.assume(f.res == hres(f.root), f.v != f.m, f.v != null, f.m != null, Select(s.alloc, f.v), Select(s.alloc, f.m),
                 f.at("dir", f.res))
    x.eng.fs_x = (x, f.res if not x.contract.q.endswith("__post_init__") else None)


READS = ("read_bytes", "read_text", "write_bytes", "write_text", "open", "rglob", "iterdir", "glob", "touch", "rename", "replace",
         "chmod", "symlink_to")


def fs_site(eng, st, what, *a):
    if not what.startswith("host."):
        return
    op = what[5:]
    x, r = eng.fs_x
    if r is None or op not in READS + ("mkdir", "unlink", "rmdir"):
        return
    p = a[0].t
    real = hres(p)
    g = inside(real, r)
    if op == "mkdir":       # the root exists, and so does everything above it
        g = Or(g, inside(r, real), p == hparent(r))
    if op in ("unlink", "rmdir"):
        g = Or(And(real == p, g), inside(hres(hparent(p)), r))
    eng.oblige(st, "%s stays inside the root" % op, ("C13",), g)


def kept(x, path=None, loc=None):
    a, b = fs(x, pre(x)), fs(x, post(x))
    k, o = Const("k", S), Const("o", Obj)
    other = TRUE if path is None else k != path
    away = TRUE if loc is None else o != loc
    out = []
    for d in (a.v, a.m):
        out.append(ForAll([k], Implies(other, And(b.has(d, k) == a.has(d, k), Implies(a.has(d, k), b.get(d, k) == a.get(d, k)))),
                          patterns=[b.has(d, k), b.get(d, k)]))
    for f in ("file", "text", "mtime"):
        out.append(ForAll([o], Implies(away, b.at(f, o) == a.at(f, o)), patterns=[b.at(f, o)]))
    out.append(ForAll([o], Implies(a.at("dir", o), b.at("dir", o)), patterns=[b.at("dir", o)]))
    return And(out)


contract("FileSystemAdapter._resolve", [("self", FSA), ("path", "str")], ret="hpath", setup=fs_setup, site=fs_site,
         ensures=[ens("a real location inside the root", "C13", lambda x: And(hres(x.res.t) == x.res.t, inside(x.res.t, pre(x).f("F._root_resolved", x.t("self")))))],
         ghost=lambda x: [escapes(x)] if x.exc is not None else [Not(escapes(x)), x.res.t == hloc(pre(x).f("F.root", x.t("self")), x.t("path"))],
         raises={"ValueError": dict()}, frame="C12 C13", own="C12")


def target_loc(x):
    v = x["target"]
    return hloc(pre(x).f("F.root", x.t("self")), x.t("rel_path")) if v is NONE else hres(v.t)


contract("FileSystemAdapter._refresh_version", [("self", FSA), ("rel_path", "str"), ("target", ("opt", "hpath"))], ret="int",
         setup=fs_setup, site=fs_site, mods=VERS, frame="C12 C13", own="C13",
         ensures=[ens("the current version", "C12", lambda x: x.res.t == fs(x, pre(x)).cur(x.t("rel_path"), target_loc(x))),
                  ens("which stays the current one", "C12", lambda x: fs(x, post(x)).cur(x.t("rel_path"), target_loc(x)) == x.res.t),
                  ens("the rest", "C12", lambda x: kept(x, x.t("rel_path")))],
         raises={"ValueError": dict(ensures=[ens("nothing changes", "C12", lambda x: And(kept(x), x["target"] is NONE))]),
                 "OSError": dict(mods=VERS, ensures=[ens("nothing else changes", "C12", lambda x: kept(x, x.t("rel_path")))])})

loc = lambda x: hloc(pre(x).f("F.root", x.t("self")), x.t("path"))
NEWE = ("StorageEntry", "<collection>")


def entry(x, text, ver):
    r = x.res.t
    return And(Not(Select(x.pre.alloc, r)), post(x).f("E.content", r) == text, post(x).f("E.version", r) == ver)


RDM = VERS | {"E.content", "E.version"}
contract("FileSystemAdapter.read", [("self", FSA), ("path", "str")], ret=ENTRY, setup=fs_setup, site=fs_site, mods=RDM,
         alloc=NEWE, frame="C12 C13", xprops="C12", own="C13",
         ensures=[ens("the text and current version of the entry", "C12", lambda x: And(
             fs(x, pre(x)).at("file", loc(x)), entry(x, decoded(fs(x, pre(x)).at("text", loc(x))), fs(x, pre(x)).cur(x.t("path"), loc(x))))),
             ens("the version stays", "C12", lambda x: fs(x, post(x)).cur(x.t("path"), loc(x)) == fs(x, pre(x)).cur(x.t("path"), loc(x))),
             ens("the rest", "C12", lambda x: kept(x, x.t("path")))],
         raises={"FileNotFoundError": dict(ensures=[ens("nothing changes", "C12", lambda x: kept(x)), ens(
                     "there is no such entry", "C12", lambda x: Not(fs(x, pre(x)).exists(loc(x))))]),
                 "ValueError": dict(ensures=[ens("nothing changes", "C12", lambda x: kept(x))]),
                 "OSError": dict(mods=VERS, ensures=[ens("nothing else changes", "C12", lambda x: kept(x, x.t("path")))])})

WRM = RDM | HOST
contract("FileSystemAdapter.write", [("self", FSA), ("path", "str"), ("content", "str"), ("version", "int")], ret=ENTRY,
         setup=fs_setup, site=fs_site, mods=WRM, alloc=NEWE, frame="C12 C13", own="C13",
         covers=[("a new entry", lambda x: Not(fs(x, pre(x)).at("file", loc(x)))), ("an existing one", lambda x: fs(x, pre(x)).at("file", loc(x)))],
         ensures=[ens("the version was current", "C12", lambda x: Implies(
             fs(x, pre(x)).exists(loc(x)), fs(x, pre(x)).cur(x.t("path"), loc(x)) == x.t("version"))),
                  ens("stored with the version raised by one", "C12", lambda x: And(
                      fs(x, post(x)).at("file", loc(x)), fs(x, post(x)).at("text", loc(x)) == x.t("content"),
                      Implies(fs(x, pre(x)).exists(loc(x)), fs(x, post(x)).cur(x.t("path"), loc(x)) == x.t("version") + 1))),
                  ens("a copy is returned", "C12", lambda x: entry(x, x.t("content"), fs(x, post(x)).cur(x.t("path"), loc(x)))),
                  ens("the rest", "C12", lambda x: kept(x, x.t("path"), loc(x)))],
         raises={"ValueError": dict(mods=VERS, ensures=[
                     ens("no entry changes", "C12", lambda x: kept(x, x.t("path"))),
                     ens("the version is another one", "C12", lambda x: Or(
                         fs(x, pre(x)).cur(x.t("path"), loc(x)) != x.t("version"), escapes(x)))]),
                 "OSError": dict(mods=VERS | HOST, ensures=[ens("nothing else changes", "C12", lambda x: kept(x, x.t("path"), loc(x)))])})

contract("FileSystemAdapter.delete", [("self", FSA), ("path", "str")], setup=fs_setup, site=fs_site, mods=VERS | HOST,
         frame="C12 C13", own="C13",
         ensures=[ens("the entry is gone", "C12", lambda x: Not(fs(x, post(x)).at("file", loc(x)))),
                  ens("the rest", "C12", lambda x: kept(x, x.t("path"), loc(x)))],
         raises={"ValueError": dict(ensures=[ens("nothing changes", "C12", lambda x: kept(x))]),
                 "OSError": dict(mods=VERS, ensures=[ens("nothing else changes", "C12", lambda x: kept(x, x.t("path")))])})

contract("FileSystemAdapter.list", [("self", FSA)], ret=("dict", "str", ENTRY), setup=fs_setup, site=fs_site,
         mods=RDM | {"dict<str,ref<StorageEntry>>.dom", "dict<str,ref<StorageEntry>>.val0"}, alloc=NEWE, frame="C13", own="C13",
         raises={"OSError": dict(mods=RDM, alloc=NEWE)})
