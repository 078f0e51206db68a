"""Contracts: walking the tree."""
from .specs import *
from .specs_fs import *
from .specs_list import *
from .contract import Contract
from .engine import Unsupported


def intree(h, vfs, n):
    """The node is found at its own path."""
    return And(n != null, h.at(vfs, h.path(n)) == n)


def skipped(x, h, v, p):
    """Some path of the list v contains p."""
    if v is NONE:
        return FALSE
    if isinstance(v, LList):
        cs = x.pre.lists[v.id]
        if not all(isinstance(c, Item) and isinstance(c.v, Val) and c.v.T == "path" for c in cs):
            raise Unsupported("the prefixes to skip")
        return Or([And(anchor(c.v.t) == 1, prefix(segs(c.v.t), p)) for c in cs] + [FALSE])
    i = Const("i", z3.IntSort())
    el = Select(Select(h.a("list<path>.el0"), v.t), i)
    return And(v.t != null, Exists([i], And(i >= 0, i < h.f("list<path>.len", v.t), anchor(el) == 1, prefix(segs(el), p))))


def tree_src(x, start, what, recursive=TRUE, vfs=None):
    """Nodes in the subtree of start: files only, or all."""
    h = pre(x)
    vfs = vfs if vfs is not None else x.eng.args["self"].t if "self" not in x.args else x.t("self")
    D = h.path(start)

    def member(n):
        p = h.path(n)
        inside = And(Select(x.pre.alloc, n), L.isnode(n), intree(h, vfs, n), prefix(D, p))
        if what == "files":
            return And(inside, L.isfile(n), Or(n == start, h.f("N.parent", n) == start, recursive))
        return inside
    T = "VirtualFile" if what == "files" else "VirtualNode"
    elem = lambda s, n: [(s, Tup([vpath(P(1, h.path(n))), ref(T, n)]))]
    ident = (h.K, h.Pa, h.Na, h.root(vfs), start, recursive if what == "files" else TRUE)
    return Src("tree-" + what, ident, Ref, member, elem)


def tree_comp(x, start, what, skip=NONE, **kw):
    src = tree_src(x, start, what, **kw)
    n = fresh("ix", Ref)
    h = pre(x)
    keep = Not(skipped(x, h, skip, h.path(n)))

    def wit(src2, i, m):
        return m if i.sort() == Ref else L.nxt(h.path(start), h.path(m))
    vfs = x.eng.args["self"].t if "self" not in x.args else x.t("self")
    wit.marks = lambda m: [h.at(vfs, Snoc(h.path(start), L.nxt(h.path(start), h.path(m))))]
    return Comp(src, n, [(keep, [Item(src.elem(None, n)[0][1])])]), wit


def local_files(eng, f):
    nm = f.node.args.args[0].arg
    a = eng.args
    vfs = a["self"]
    return Contract(f.name, [(nm, DIR)], gen=True, mods=LOAD, raises=FAILS, ensures=[GROWS],
                    requires=lambda x: [("the directory is in the tree", intree(pre(x), vfs.t, x.t(nm)))],
                    covers=[("inner return", lambda x: TRUE)],
                    members=("exactly the files below the directory that are not skipped", "C15 C06 C07", lambda x: tree_comp(
                        x, x.t(nm), "files", recursive=a["recursive"].t, skip=a["skip_prefixes"])))


SKIP = ["none", ("list", "path")]
contract("VirtualFileSystem._iter_files", [("self", VFS), ("start_node", NODE), ("recursive", "bool"), ("skip_prefixes", SKIP)],
         gen=True, mods=LOAD, raises=FAILS, local=local_files, ensures=[GROWS],
         requires=lambda x: [("the node is in the tree", intree(pre(x), x.t("self"), x.t("start_node")))],
         members=("exactly the files at or below the node that are not skipped", "C15 C06 C07", lambda x: tree_comp(
             x, x.t("start_node"), "files", recursive=x.t("recursive"), skip=x["skip_prefixes"])))

NOTHERE = {"NodeNotFound": dict(mods=LOAD, ensures=[GROWS]), "InvalidOperation": dict(mods=LOAD, ensures=[GROWS]), **FAILS}
contract("VirtualFileSystem.iter_files", [("self", VFS), ("path", OPTPATH), ("recursive", "bool"), ("skip_prefixes", SKIP)],
         gen=True, mods=LOAD, ensures=[ens("a readable node is there", "C06 C15", lambda x: And(
             start(x) != null, pre(x).readable(start(x)))), GROWS],
         members=("exactly the files at or below the path that are not skipped", "C15 C06 C07", lambda x: tree_comp(
             x, start(x), "files", recursive=x.t("recursive"), skip=x["skip_prefixes"])),
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[ens("nothing is there", "C15", lambda x: start(x) == null), GROWS]),
                 "InvalidOperation": dict(mods=LOAD, ensures=[ens("nothing readable is there", "C15", lambda x: Or(
                     start(x) == null, Not(pre(x).readable(start(x))))), GROWS]), **FAILS})


def local_walk(eng, f):
    nm = f.node.args.args[0].arg
    vfs = eng.args["self"]
    return Contract(f.name, [(nm, NODE)], gen=True, mods=LOAD, raises=FAILS, ensures=[GROWS],
                    requires=lambda x: [("the node is in the tree", intree(pre(x), vfs.t, x.t(nm)))],
                    covers=[("inner return", lambda x: TRUE)],
                    members=("exactly the nodes at or below the node", "C01 C14", lambda x: tree_comp(x, x.t(nm), "nodes")))


contract("VirtualFileSystem.walk", [("self", VFS), ("path", OPTPATH)], gen=True, mods=LOAD, local=local_walk,
         ensures=[ens("a node is there", "C01", lambda x: start(x) != null), GROWS], raises=NOTHERE,
         members=("exactly the nodes at or below the path, with their paths", "C01 C14", lambda x: tree_comp(x, start(x), "nodes")))
