"""Contracts: listing, walking and searching."""
from .specs import *
from .specs_fs import *
from .specs_ops import *
from .contract import Contract
from .values import Src
from .engine import vstr, vpath, ref, vint

OPTVIEW = ("opt", ("ref", "VisibilityView"))
OPTPATH = ["none", "str", "path"]


def start(x):
    """The node a listing starts at: the one at the path, or the working directory's path."""
    h, v = pre(x), x["path"]
    if v is NONE:
        return h.at(x.t("self"), h.path(h.f("V.cwd", x.t("self"))))
    return h.at(x.t("self"), h.canon(x.t("self"), v))


def may_see(x, n):
    v = x["view"]
    return TRUE if v is NONE else pre(x).allows_node(v.t, n)


def record(x, cls, fields):
    i = x.eng.nid()
    x.post.insts[i] = x.pre.insts[i] = fields
    return Inst(i, cls)


def entries(x):
    e, h, d = x.eng, pre(x), start(x)
    arr = Select(h.K, d)
    src = Src("kids", (arr,), S, lambda k: Select(arr, k) != null, lambda s, k: [(s, ref("VirtualNode", Select(arr, k)))])
    k = fresh("ix", S)
    n = Select(arr, k)
    it = record(x, "DirEntry", {"name": vstr(h.f("N.name", n)), "path": vpath(P(1, h.path(n))), "is_dir": Val("bool", L.isdir(n)),
                                "metadata": Val(("dict", "str", "obj"), h.f("N.metadata", n)),
                                "policy": Val(("ref", "NodePolicy"), h.f("N.policy", n))})
    return [Comp(src, k, [(may_see(x, n), [Item(it)])])]


contract("VirtualFileSystem.ls", [("self", VFS), ("path", OPTPATH), ("view", OPTVIEW)], mods=LOAD,
         elems=("one entry for every child the view allows", "C01 C06 C07", entries),
         ensures=[ens("a readable directory is there", "C06", lambda x: And(
             start(x) != null, L.isdir(start(x)), pre(x).readable(start(x)))), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[GROWS]), "InvalidOperation": dict(mods=LOAD, ensures=[GROWS]), **FAILS})
