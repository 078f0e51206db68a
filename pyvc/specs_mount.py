"""Contracts: mounting provider-backed files, storage mounts and their synchronisation."""
from .specs import *
from .specs_fs import *
from .specs_ops import *
from .specs_move import *

META = ("opt", ("dict", "str", "obj"))
DOBJ = {"dict<str,obj>.dom", "dict<str,obj>.val0"}

contract("VirtualFileSystem.mount_file", [("self", VFS), ("path", PATHARG), ("provider", "fun"), ("metadata", META)],
         ret=FILE, mods=MAKE | {"N._provider", "N._provider#1"} | DOBJ, alloc=NEWNODES, frame="C03 C09", xframe="C04",
         lemmas=path_terms,
         covers=[("a new file", lambda x: target0(x) == null), ("an existing file", lambda x: target0(x) != null)],
         ensures=[
             ens("the file at the canonical path", "C01 C03", lambda x: made(x, L.isfile)),
             ens("it has the provider", "C21", lambda x: And(Not(post(x).f("N._provider", x.res.t)),
                                                            post(x).f("N._provider#1", x.res.t) == x.t("provider"))),
             ens("no other file changes", "C03 C21", keeps("N._provider", "N._provider#1")),
             ens("only missing entries of the path appear", "C03", only_path_entries),
             ens("created directories are in their initial state", "C03 C05", lambda x: TRUE if x["metadata"] is not NONE else initial_but(
                 x, x.res.t)), GROWS],
         raises={"InvalidOperation": dict(mods=LOAD, ensures=[GROWS]), "NodeNotFound": dict(mods=LOAD, ensures=[GROWS]),
                 "ProviderError": dict(mods=LOAD, ensures=[GROWS]),
                 "?": dict(mods=MAKE, alloc=NEWNODES)})

# ---------------------------------------------------------------- storage mounts
LISTED = {"dict<str,ref<StorageEntry>>.dom", "dict<str,ref<StorageEntry>>.val0", "E.content", "E.version"}


def listing(x):
    a, b, d = pre(x), post(x), x.res.t
    s = x.t("self")
    k, r = Const("k", S), Const("r", Ref)
    D, V = b.f("dict<str,ref<StorageEntry>>.dom", d), b.f("dict<str,ref<StorageEntry>>.val0", d)
    e = Select(V, k)
    return And(Not(Select(x.pre.alloc, d)), Select(x.post.alloc, d),
               ForAll([k], And(Select(D, k) == Select(a.f("A.@dom", s), k), Implies(Select(D, k), And(
                   e != null, Select(x.post.alloc, e), Not(Select(x.pre.alloc, e)), b.f("E.content", e) == Select(a.f("A.@text", s), k),
                   b.f("E.version", e) == Select(a.f("A.@ver", s), k)))), patterns=[Select(D, k), e]))


contract("StorageAdapter.list", [("self", ADAPTER)], ret=("dict", "str", ENTRY), mods=LISTED, alloc=("StorageEntry", "<collection>"),
         trusted=PROTO, ensures=[ens("exactly the stored entries", "C11", listing), ens("nothing else changes", "C11", lambda x: And([ForAll(
             [Const("r", Ref)], Implies(Select(x.pre.alloc, Const("r", Ref)), post(x).f(f, Const("r", Ref)) == pre(x).f(f, Const("r", Ref))),
             patterns=[post(x).f(f, Const("r", Ref))]) for f in sorted(LISTED)]))],
         raises={"?": dict(mods=LISTED, alloc=("StorageEntry", "<collection>"))})

FILL = MAKE | {"N._content", "N._provider", "N._provider#1", "N.modified_at", "N.version"} | LISTED
ALLNEW = NEWNODES + ("StorageEntry", "<collection>")


class Ld:
    """The files below a storage mount and the adapter's entries."""

    def __init__(self, a, h, vfs, pfx, ad):
        self.a, self.h, self.vfs, self.pfx, self.ad = a, h, vfs, pfx, ad
        self.dom, self.text, self.ver = [a.f(f, ad) for f in ("A.@dom", "A.@text", "A.@ver")]
        self.k, self.p = Const("k", S), Const("p", L.SL)

    def ok(self):
        """Every key is the text of a relative path without '..'."""
        q = L.parse(self.k)
        return ForAll([self.k], Implies(Select(self.dom, self.k), And(
            anchor(q) == 0, L.nodots(segs(q)), segs(q) != L.Nil, L.pstr(q) == self.k)), patterns=[Select(self.dom, self.k)])

    def node(self, k):
        return self.h.at(self.vfs, L.cat(self.pfx, segs(L.parse(k))))

    def entries(self, seen):
        n, k = self.node(self.k), self.k
        h = self.h
        return ForAll([k], Implies(And(Select(seen, k), Select(self.dom, k)), And(
            n != null, L.isfile(n), h.f("N._provider", n), h.f("N._content", n) == Select(self.text, k),
            h.f("N.version", n) == Select(self.ver, k))), patterns=[Select(seen, k), L.parse(k)])

    def others(self, seen):
        l = self.h.at(self.vfs, L.cat(self.pfx, self.p))
        k = L.pstr(P(0, self.p))
        return ForAll([self.p], Implies(And(l != null, L.isfile(l)), And(Select(self.dom, k), Select(seen, k))), patterns=[l])


def dots_cat():
    """By induction on b (lemmas.py)."""
    a, b = Const("a", L.SL), Const("b", L.SL)
    return ForAll([a, b], Implies(And(L.nodots(a), L.nodots(b)), L.nodots(L.cat(a, b))), patterns=[L.cat(a, b)])


def ld_setup(x):
    x.eng.ld_pre = x.pre.copy()
    x.eng.defs.append(dots_cat())


def ld_hints(eng, entry, changed, g, node, b):
    out = []
    seen = eng.loop_seen
    if seen is None or seen[1].domain() != S:
        return out
    a0, vfs, pfx, ad = H(eng, eng.ld_pre), eng.args["self"].t, segs(eng.args["prefix"].t), eng.args["adapter"].t
    mk = lambda st: Ld(a0, H(eng, st), vfs, pfx, ad)

    def c(nm, fn):
        fn.nm = nm
        out.append(fn)
    c("the entries so far", lambda st, g: Implies(mk(st).ok(), mk(st).entries(st.ghost[seen[0]])))
    c("no other files so far", lambda st, g: Implies(mk(st).ok(), mk(st).others(st.ghost[seen[0]])))
    c("the directory", lambda st, g: And(H(eng, st).at(vfs, pfx) != null, L.isdir(H(eng, st).at(vfs, pfx))))
    return out


def loaded_as_stored(x, pfx=None, ad=None):
    l = Ld(pre(x), post(x), x.t("self"), segs(x.t("prefix")) if pfx is None else pfx, x.t("adapter") if ad is None else ad)
    return [("the adapter's entries", Implies(l.ok(), l.entries(l.dom))), ("no other files", Implies(l.ok(), l.others(l.dom)))]


contract("VirtualFileSystem._load_storage_mount", [("self", VFS), ("prefix", "path"), ("adapter", ADAPTER)],
         requires=lambda x: [("the path is canonical", And(anchor(x.t("prefix")) == 1, L.nodots(segs(x.t("prefix")))))],
         mods=FILL, alloc=ALLNEW, own="C02", setup=ld_setup, hints=ld_hints,
         ensures=[ens("files", "C11", loaded_as_stored)],
         raises={"?": dict(mods=FILL, alloc=ALLNEW)})

MNT = {"dict<path,ref<StorageAdapter>>.dom", "dict<path,ref<StorageAdapter>>.val0"}


def only_mount(x):
    """The mount table gains exactly this mount."""
    a, b = pre(x), post(x)
    m = a.f("V._storage_mounts", x.t("self"))
    q = P(1, a.canon(x.t("self"), x["path"]))
    D, V = "dict<path,ref<StorageAdapter>>.dom", "dict<path,ref<StorageAdapter>>.val0"
    return And(b.f(D, m) == Store(a.f(D, m), q, TRUE), b.f(V, m) == Store(a.f(V, m), q, x.t("adapter")))


contract("VirtualFileSystem.mount_storage", [("self", VFS), ("path", PATHARG), ("adapter", ADAPTER), ("policy", ("opt", ("ref", "NodePolicy")))],
         ret=DIR, mods=FILL | MNT | INDEX | {"N.policy"}, alloc=ALLNEW, own="C02 C11", lemmas=path_terms,
         ensures=[ens("the mount is registered at the canonical path", "C11", only_mount),
                  ens("files", "C11", lambda x: loaded_as_stored(x, pre(x).canon(x.t("self"), x["path"])))],
         raises={"?": dict(mods=FILL | MNT | INDEX | {"N.policy"}, alloc=ALLNEW)})

contract("VirtualFileSystem.sync_storage", SELFP, mods=FILL | INDEX, alloc=ALLNEW, own="C02 C11", lemmas=path_terms,
         ensures=[ens("there is a mount", "C11", lambda x: Select(mount_of(pre(x), x.t("self"))[0], P(1, pre(x).canon(
             x.t("self"), x["path"])))),
             ens("files", "C11", lambda x: loaded_as_stored(x, pre(x).canon(x.t("self"), x["path"]), Select(
                 mount_of(pre(x), x.t("self"))[1], P(1, pre(x).canon(x.t("self"), x["path"])))))],
         raises={"?": dict(mods=FILL | INDEX, alloc=ALLNEW), "InvalidOperation": dict(mods=FILL | INDEX, alloc=ALLNEW)})

MDM = MAKE | {"N.loader", "N.loader#1"} | DOBJ
contract("VirtualFileSystem.mount_directory", [("self", VFS), ("path", PATHARG), ("provider", "fun"), ("metadata", META)],
         ret=DIR, mods=MDM, alloc=True, own="C02", lemmas=path_terms,
         ensures=[ens("the directory at the canonical path has the loader", "C21", lambda x: And(
             x.res.t == post(x).at(x.t("self"), pre(x).canon(x.t("self"), x["path"])), Not(post(x).loaded(x.res.t)),
             Not(post(x).f("N.loader", x.res.t)), post(x).f("N.loader#1", x.res.t) == x.t("provider")))],
         raises={"?": dict(mods=MDM, alloc=True), "InvalidOperation": dict(mods=MDM, alloc=True), "NodeExists": dict(mods=MDM, alloc=True),
                 "NodeNotFound": dict(mods=MDM, alloc=True)})
