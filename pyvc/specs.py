"""The contracts of sandfs."""
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, Select, Store, ForAll, Exists, Const
from . import logic as L
from .logic import S, Ref, Obj, null, lit, fresh, Nil, Snoc, P, anchor, segs, prefix, lookup, norm, pathOf
from .values import *
from .contract import Contract, Clause, X, key_sort
from .calls import provtext

TRUE, FALSE = BoolVal(True), BoolVal(False)
C = {}


def contract(q, params, **kw):
    C[q] = Contract(q, params, **kw)
    return C[q]


VFS = ("ref", "VirtualFileSystem")
NODE = ("ref", "VirtualNode")
FILE = ("ref", "VirtualFile")
DIR = ("ref", "VirtualDirectory")
POL = ("ref", "NodePolicy")
VIEW = ("ref", "VisibilityView")
SETS = ("set", "str")


# ---------------------------------------------------------------- vocabulary
class H:
    """Terms of one state."""

    def __init__(self, eng, st):
        self.e, self.st = eng, st

    def a(self, key):
        return self.e.harr(self.st, key, key_sort(self.e, key))

    def f(self, key, r):
        return Select(self.a(key), r)

    def sset(self, r):
        return self.f("set<str>.items", r)

    def pset(self, r):
        return self.f("set<path>.items", r)

    K = property(lambda s: s.a("N.kids"))
    Pa = property(lambda s: s.a("N.parent"))
    Na = property(lambda s: s.a("N.name"))

    def path(self, n):
        return pathOf(self.Pa, self.Na, n)

    def canon(self, vfs, v, named=True):
        """Canonical segment list a path argument stands for."""
        cwd = self.path(self.f("V.cwd", vfs))
        if v is NONE:
            return cwd
        p = L.parse(v.t) if v.T == "str" else v.t
        full = norm(If(anchor(p) == 0, L.cat(cwd, segs(p)), segs(p)))
        t = If(v.t == lit(""), cwd, full) if v.T == "str" else full
        return self.e.named(t, "canon") if named else t

    def text(self, n):
        """What reading the file gives (when its provider does not fail)."""
        return If(self.f("N._provider", n), self.f("N._content", n),
                  provtext(self.f("N._provider#1", n), P(1, self.path(n))))

    def loaded(self, n):
        return self.f("N._loaded", n)

    def root(self, vfs):
        return self.f("V.root", vfs)

    def at(self, vfs, p):
        return lookup(self.K, self.root(vfs), p)

    def readable(self, n):
        return self.f("Po.readable", self.f("N.policy", n))

    def writable(self, n):
        return self.f("Po.writable", self.f("N.policy", n))

    def append_only(self, n):
        return self.f("Po.append_only", self.f("N.policy", n))

    def allows(self, view, pol):
        s = Const("s", S)
        prin, vp = self.sset(self.f("Po.principals", pol)), self.f("W.principals", view)
        vc = self.f("W.classifications", view)
        named = Exists([s], Select(prin, s))
        shared = Exists([s], And(Select(prin, s), Select(self.sset(vp), s)))
        return If(named, And(vp != null, shared),
                  Or(vc == null, Select(self.sset(vc), self.f("Po.classification", pol))))

    def inside(self, view, p):
        """p lies inside, or on the way to, one of the view's prefixes."""
        q = Const("q", L.Path)
        pp = self.f("W.path_prefixes", view)
        return Or(pp == null, Exists([q], And(Select(self.pset(pp), q), anchor(q) == anchor(p),
                                              Or(prefix(segs(q), segs(p)), prefix(segs(p), segs(q))))))

    def meta_ok(self, view, node):
        k = Const("k", S)
        mf = self.f("W.metadata_filters", view)
        D, V = self.f("dict<str,obj>.dom", mf), self.f("dict<str,obj>.val0", mf)
        m = self.f("N.metadata", node)
        d, v = self.f("dict<str,obj>.dom", m), self.f("dict<str,obj>.val0", m)
        none = Const("None_obj", Obj)
        return Or(mf == null, ForAll([k], Implies(Select(D, k), Select(V, k) == If(Select(d, k), Select(v, k), none)),
                                     patterns=[Select(D, k)]))

    def allows_node(self, view, node):
        return And(self.allows(view, self.f("N.policy", node)), self.inside(view, P(1, self.path(node))),
                   self.meta_ok(view, node))


def pre(x):
    return H(x.eng, x.pre)


def post(x):
    return H(x.eng, x.post)


def ens(name, props, fn):
    return Clause(name, props if isinstance(props, (tuple, list)) else props.split(), fn)


def only(cls, *clauses, **kw):
    return {cls: dict(ensures=list(clauses), **kw)}


def others_keep(x, *keys, who=None):
    """Every object that existed, except the given one, keeps these fields."""
    r = Const("r", Ref)
    who = x.t("self") if who is None else who
    return And([ForAll([r], Implies(And(Select(x.pre.alloc, r), r != who), post(x).f(k, r) == pre(x).f(k, r)),
                       patterns=[post(x).f(k, r)]) for k in keys])


def provider_call(x):
    if x.eng.verifying is not x.contract:
        return None
    calls = x.post.ghost.get("provided", ())[len(x.pre.ghost.get("provided", ())):]
    n = x.t("self")
    none = pre(x).f("N._provider", n)
    if not calls:
        return none
    if len(calls) != 1 or len(calls[0][1]) != 1 or not isinstance(calls[0][1][0], Inst):
        return FALSE
    fv, (ctx,) = calls[0]
    f = x.post.insts[ctx.id]
    vfs = f.get("vfs")
    same = BoolVal(vfs is x["vfs"]) if vfs is NONE or x["vfs"] is NONE else vfs.t == x["vfs"].t
    return And(Not(none), fv.t == pre(x).f("N._provider#1", n), f["path"].t == P(1, pre(x).path(n)),
               f["metadata"].t == pre(x).f("N.metadata", n), same)


PATHARG = ["str", "path"]

# ---------------------------------------------------------------- nodes
LOAD = {"N._loaded", "N.pk"}
FAILS = {"?": dict(mods=LOAD)}          # a directory provider failed


def grows(x):
    """Directories are only ever marked loaded, never unloaded."""
    r = Const("r", Ref)
    a, b = pre(x).a("N._loaded"), post(x).a("N._loaded")
    return ForAll([r], Implies(Select(a, r), Select(b, r)), patterns=[Select(b, r), Select(a, r)])


GROWS = ens("loaded directories stay loaded", "*", grows)

contract("VirtualNode.path", [("self", NODE)], ret="path",
         value=("the path lists the names from the root", "C01 C02", lambda x: P(1, pre(x).path(x.t("self")))))

contract("VirtualDirectory.ensure_loaded", [("self", DIR), ("vfs", ("opt", VFS))], mods=LOAD,
         ensures=[ens("the directory is loaded", "C21", lambda x: post(x).loaded(x.t("self"))), GROWS],
         raises={"?": dict(mods=set())},
         trusted="the entries of a directory are modelled as those it has once loaded; the loading itself is verified "
                 "separately (C21)")

contract("VirtualDirectory.get_child", [("self", DIR), ("name", "str"), ("vfs", ("opt", VFS))], ret=NODE, mods=LOAD,
         ensures=[ens("the entry of that name", "C01 C02", lambda x: And(
             x.res.t == Select(Select(pre(x).K, x.t("self")), x.t("name")), x.res.t != null)),
             ens("the directory is loaded", "C21", lambda x: post(x).loaded(x.t("self"))), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[
             ens("there is no such entry", "C01 C02", lambda x: Select(Select(pre(x).K, x.t("self")), x.t("name")) == null),
             ens("the directory is loaded", "C21", lambda x: post(x).loaded(x.t("self"))), GROWS]), **FAILS})

contract("VirtualFile.read", [("self", FILE), ("vfs", ("opt", VFS))], ret="str",
         value=("stored text, or what the provider gives for this path", "C03 C21", lambda x: pre(x).text(x.t("self"))),
         ensures=[ens("the provider is asked once, with path, metadata and filesystem", "C21", provider_call)],
         raises={"ProviderError": dict(ensures=[
             ens("only a file with a provider fails to read", "C21", lambda x: Not(pre(x).f("N._provider", x.t("self"))))])})

contract("VirtualFile.write", [("self", FILE), ("data", "str"), ("append", "bool")],
         mods={"N._content", "N._provider"}, frame="C03",
         ensures=[ens("the stored text is replaced or extended", "C03", lambda x: post(x).f("N._content", x.t("self")) == If(
             x.t("append"), L.scat(pre(x).f("N._content", x.t("self")), x.t("data")), x.t("data"))),
             ens("the file has no provider any more", "C03", lambda x: post(x).f("N._provider", x.t("self"))),
             ens("other files keep their text", "C03", lambda x: others_keep(x, "N._content", "N._provider", "N._provider#1"))])

# ---------------------------------------------------------------- filesystem: names
contract("VirtualFileSystem._normalize", [("self", VFS), ("path", ["str", "path", "none"])], ret="path",
         value=("the canonical form of the path", "C01", lambda x: P(1, pre(x).canon(x.t("self"), x["path"]))))


def found(x, kind=None):
    t = pre(x).at(x.t("self"), pre(x).canon(x.t("self"), x["path"]))
    r = [x.res.t == t, x.res.t != null]
    if kind is not None:
        r.append(kind(x.res.t))
    return And(r)


def parent_loaded(x):
    p = pre(x).f("N.parent", x.res.t)
    return Or(x.res.t == pre(x).root(x.t("self")), post(x).loaded(p))


def not_found(x, kind=None):
    t = pre(x).at(x.t("self"), pre(x).canon(x.t("self"), x["path"]))
    return t == null if kind is None else Or(t == null, Not(kind(t)))


contract("VirtualFileSystem._resolve_node", [("self", VFS), ("path", ["str", "path", "none"])], ret=NODE, mods=LOAD,
         ensures=[ens("the node at the canonical path", "C01", found),
                  ens("its parent is loaded", "*", parent_loaded), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[ens("nothing is there", "C01", not_found), GROWS]),
                 "InvalidOperation": dict(mods=LOAD, ensures=[ens("nothing is there", "C01", not_found), GROWS]), **FAILS})

contract("VirtualFileSystem.exists", [("self", VFS), ("path", PATHARG)], ret="bool", mods=LOAD,
         value=("whether a node is there", "C01", lambda x: pre(x).at(x.t("self"), pre(x).canon(x.t("self"), x["path"])) != null),
         ensures=[GROWS], raises=FAILS)

MAKE = LOAD | {"N.kids"}


def created(x, keys=True):
    """What creating missing entries along the path did: entries were added only where nothing was, only below the
    topmost missing name, and what was added is new and has its initial state."""
    a, b, A = pre(x), post(x), x.pre.alloc
    c = pre(x).canon(x.t("self"), x["path"])
    rt = pre(x).root(x.t("self"))
    d, n = z3.Consts("d n", Ref)
    s, p = Const("s", S), Const("p", L.SL)
    k0, k1 = Select(Select(a.K, d), s), Select(Select(b.K, d), s)
    l0, l1 = lookup(a.K, rt, p), lookup(b.K, rt, p)
    return [
        ("entries are only added, for new nodes, on the way to the path", ForAll([d, s], Implies(Select(A, d), Or(
            k1 == k0, And(k0 == null, Not(Select(A, k1)), d == lookup(a.K, rt, a.path(d)),
                          prefix(Snoc(a.path(d), s), c)))), patterns=[k1])),
        ("only missing prefixes of the path appear", ForAll([p], Or(l1 == l0, And(
            l0 == null, Not(Select(A, l1)), l1 != null, prefix(p, c))), patterns=[l1])),
        ("directories that gained an entry are loaded", ForAll([d, s], Implies(And(Select(A, d), k1 != k0), b.loaded(d)), patterns=[k1])),
        ("nothing changes when the path is there", Implies(lookup(a.K, rt, c) != null, ForAll([d, s], Implies(
            Select(A, d), k1 == k0), patterns=[k1]))),
        ("new nodes are in their initial state", ForAll([n], Implies(And(Select(x.post.alloc, n), Not(Select(A, n)), L.isnode(n)),
                                                                     initial(b, A, n)), patterns=[Select(x.post.alloc, n)])),
    ]


def initial_parts(h, A, n):
    pol, md = h.f("N.policy", n), h.f("N.metadata", n)
    return [h.f("N.version", n) == 0, Implies(L.isfile(n), And(h.f("N._content", n) == lit(""), h.f("N._provider", n))),
            Implies(L.isdir(n), h.loaded(n)),
            And(pol != null, Not(Select(A, pol)), Select(h.st.alloc, pol), h.f("Po.readable", pol), h.f("Po.writable", pol),
                Not(h.f("Po.append_only", pol))),
            And(md != null, Not(Select(A, md)), Select(h.st.alloc, md), h.f("dict<str,obj>.dom", md) == z3.K(S, FALSE))]


def initial(h, A, n):
    return And(initial_parts(h, A, n))


def made(x, kind):
    c = pre(x).canon(x.t("self"), x["path"])
    t0, t1 = pre(x).at(x.t("self"), c), post(x).at(x.t("self"), c)
    return And(x.res.t != null, kind(x.res.t), x.res.t == t1, Or(x.res.t == t0, And(t0 == null, Not(Select(x.pre.alloc, x.res.t)))))


def same_tree(x):
    """No directory that existed changes its entries."""
    d, s = Const("d", Ref), Const("s", S)
    k0, k1 = Select(Select(pre(x).K, d), s), Select(Select(post(x).K, d), s)
    return ForAll([d, s], Implies(Select(x.pre.alloc, d), k1 == k0), patterns=[k1])


SAME = ens("no entry is added or removed", "C04", same_tree)

def path_terms(x, arg="path"):
    """Terms for the solver to work with; they say nothing."""
    c = pre(x).canon(x.t("self"), x[arg])
    return [L.mark(h.at(x.t("self"), p)) for h in (pre(x), post(x)) for p in (c, L.init(c))]


def same_lookups(x):
    p, v = Const("p", L.SL), x.t("self")
    l0, l1 = pre(x).at(v, p), post(x).at(v, p)
    return ForAll([p], l1 == l0, patterns=[l1])


SAMEPATHS = ens("every path leads to the same node", "C03 C04 C14", same_lookups)


def none_made(x):
    r = Const("r", Ref)
    return Or(x.t("create"), ForAll([r], Implies(Select(x.post.alloc, r), Select(x.pre.alloc, r)), patterns=[Select(x.post.alloc, r)]))


def _resolving(name, T, kind, props):
    contract("VirtualFileSystem." + name, [("self", VFS), ("path", ["str", "path"]), ("create", "bool")], ret=T,
             mods=MAKE, alloc=True, frame="C03", xframe="C04", lemmas=path_terms,
             ensures=[ens("the node at the canonical path", "C01 C03", lambda x: made(x, kind)),
                      ens("nothing is created unless asked", "C03", lambda x: Or(x.t("create"), And(
                          same_tree(x), x.res.t == pre(x).at(x.t("self"), pre(x).canon(x.t("self"), x["path"]))))),
                      ens("no node is made unless asked", "*", none_made),
                      ens("creation", "C03 C05", created),
                      ens("its parent is loaded", "*", lambda x: Or(
                          x.res.t == pre(x).root(x.t("self")), post(x).loaded(post(x).f("N.parent", x.res.t)))), GROWS],
             raises={"NodeNotFound": dict(mods=MAKE, alloc=True, ensures=[
                         SAME, SAMEPATHS, ens("nothing is there, and creation was not asked", "C01 C03", lambda x: And(
                             Not(x.t("create")), not_found(x, kind))), GROWS]),
                     "InvalidOperation": dict(mods=MAKE, alloc=True, ensures=[
                         SAME, SAMEPATHS, ens("no such node is there", "C01 C03", lambda x: not_found(x, kind)), GROWS]),
                     "?": dict(mods=MAKE, alloc=True, ensures=[ens("nothing is created unless asked", "C03", lambda x: Or(
                         x.t("create"), same_tree(x)))])})


_resolving("_resolve_dir", DIR, L.isdir, "C01")
_resolving("_ensure_file", FILE, L.isfile, "C01")

# ---------------------------------------------------------------- policies
contract("VisibilityView.allows", [("self", VIEW), ("policy", POL)], ret="bool",
         value=("allowed exactly by principals and classification", "C08 C07",
                lambda x: pre(x).allows(x.t("self"), x.t("policy"))))

contract("VisibilityView.allows_node", [("self", VIEW), ("node", NODE)], ret="bool",
         value=("allowed exactly when every filter passes", "C08 C07",
                lambda x: pre(x).allows_node(x.t("self"), x.t("node"))))
from . import specs_fs, specs_ops, specs_store, specs_move, specs_shell, specs_py, specs_host, specs_copy, specs_remove, specs_list, specs_view

V_, S_ = "VirtualFileSystem.", "SandboxShell."


def _fs(*names):
    return [V_ + n for n in names]


# the functions each property depends on; those without a discharged contract are left to the bounded check
DEPENDS = {
    "C01": _fs("pwd", "cd", "ls", "walk", "is_dir", "is_file", "get_node"),
    "C02": ["VirtualDirectory.add_child", "VirtualDirectory.remove_child"] + _fs(
        "write_file", "touch", "mkdir", "remove", "move", "copy", "restore", "mount_file", "mount_directory", "mount_storage"),
    "C03": _fs("write_file", "append_file", "touch", "mkdir", "read_file"),
    "C04": _fs("write_file", "append_file", "touch", "mkdir", "move", "copy", "remove"),
    "C05": _fs("write_file", "append_file", "touch", "mkdir", "move", "copy", "remove"),
    "C06": _fs("read_file", "ls", "cd", "copy", "search") + [S_ + n for n in (
        "_cmd_cat", "_cmd_head", "_cmd_tail", "_cmd_wc", "_cmd_grep", "_cmd_search")],
    "C07": [S_ + n for n in ("_cmd_cat", "_cmd_ls", "_cmd_tree", "_cmd_find", "_cmd_grep", "_cmd_search", "_cmd_cp",
                             "_cmd_mv", "_cmd_rm", "_cmd_touch", "_cmd_mkdir", "_cmd_cd")],
    "C08": [],
    "C09": _fs("append_file", "touch", "move", "copy", "set_policy", "read_file"),
    "C10": _fs("write_file", "append_file", "remove", "register_write_hook", "register_path_hook"),
    "C11": _fs("append_file", "remove", "mount_storage", "sync_storage", "_load_storage_mount"),
    "C12": [c + n for c in ("MemoryStorageAdapter.", "FileSystemAdapter.") for n in ("read", "write", "delete", "list")],
    "C13": ["FileSystemAdapter." + n for n in ("read", "write", "delete", "list")],
    "C14": _fs("snapshot", "restore"),
    "C15": _fs("search", "move", "copy", "remove", "_rebuild_index", "iter_files") + ["FullTextIndex." + n for n in (
        "build", "index_file", "remove_file", "search")],
    "C16": [S_ + n for n in ("exec", "_run_command", "_exec_pipeline")],
    "C17": [S_ + n for n in ("exec", "_enforce_output_limit")],
    "C18": [S_ + n for n in ("exec", "_exec_pipeline", "_run_command")],
    "C19": _fs("copy", "_clone_node", "_clone_policy", "move"),
    "C20": ["PythonExecutor.__init__", "PythonExecutor.run"],
    "C21": ["VirtualDirectory.ensure_loaded", "providers:instantiate_provided_node"],
}
TRUSTED = ["pyvc: the symbolic semantics of the Python subset (engine.py, builtins_.py, loops.py)", "z3",
           "the recursive definitions of the functions over segment lists and parent chains (lemmas.py proves the other "
           "facts about them by induction, in every run)", "the axioms about Python's strings and PurePosixPath (under assumptions)"]
ASSUMPTIONS = [
    "integers are mathematical (as in Python); strings are opaque values with the listed operations",
    "single-threaded execution; memory exhaustion and recursion limits are not modelled",
]
from . import specs_walk, specs_search  # noqa
from . import specs_mount, specs_snap  # noqa
