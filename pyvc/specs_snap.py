"""Contracts: snapshots."""
from .specs import *
from .specs_fs import *
from .specs_ops import *
from .specs_move import *
from .specs_copy import *
from .specs_mount import MNT, DOBJ, META, dots_cat

SNAP = ("ref", "VFSSnapshot")
RST = MAKE | {"V.root", "V.cwd", "V._storage_mounts", "N.metadata", "N.policy", "N.version", "N.created_at", "N.modified_at",
              "N._content", "N._provider", "N._provider#1", "N.parent", "N.name", "N.loader", "N.loader#1"} | OWN | DOBJ | MNT | INDEX
ND, NV = "dict<str,ref<NodeSnapshot>>.dom", "dict<str,ref<NodeSnapshot>>.val0"


class Sn:
    """A snapshot (in state a) and the tree (in state h)."""

    def __init__(self, a, h, vfs, snap):
        self.a, self.h, self.vfs, self.snap = a, h, vfs, snap
        d = a.f("S.nodes", snap)
        self.dom, self.val = a.f(ND, d), a.f(NV, d)
        self.k, self.p, self.q = Const("k", S), Const("p", L.SL), Const("q", L.SL)

    def ok(self):
        """What taking a snapshot guarantees: keys are the texts of canonical paths, with every path all its ancestors."""
        q = L.parse(self.k)
        key = lambda p: L.pstr(P(1, p))
        return And(
            Implies(Select(self.dom, lit("/")), self.a.f("K.is_dir", Select(self.val, lit("/")))),
            ForAll([self.k], Implies(Select(self.dom, self.k), And(
                anchor(q) == 1, L.nodots(segs(q)), L.pstr(q) == self.k, Select(self.val, self.k) != null)), patterns=[Select(self.dom, self.k)]),
            ForAll([self.p, self.q], Implies(And(prefix(self.p, self.q), Select(self.dom, key(self.q))), Select(self.dom, key(self.p))),
                   patterns=[z3.MultiPattern(prefix(self.p, self.q), Select(self.dom, key(self.q)))]))

    def parts(self, e, n):
        """Node n (in h) is as entry e (in a) says."""
        a, h = self.a, self.h
        k = Const("j", S)
        md, sd = h.f("N.metadata", n), a.f("K.metadata", e)
        pn, ps = h.f("N.policy", n), a.f("K.policy", e)
        s = Const("s", S)
        return [
            ("kind", And(n != null, L.isdir(n) == a.f("K.is_dir", e), L.isfile(n) == Not(a.f("K.is_dir", e)))),
            ("text", Implies(L.isfile(n), And(h.f("N._provider", n), h.f("N._content", n) == If(
                a.f("K.content", e), lit(""), a.f("K.content#1", e))))),
            ("version", h.f("N.version", n) == a.f("K.version", e)),
            ("times", And(h.f("N.created_at", n) == a.f("K.created_at", e), h.f("N.modified_at", n) == a.f("K.modified_at", e))),
            ("policy", And([pn != null] + [h.f("Po." + f, pn) == a.f("Po." + f, ps) for f in (
                "readable", "writable", "append_only", "classification")])),
            ("principals", ForAll([s], Select(h.sset(h.f("Po.principals", pn)), s) == Select(a.sset(a.f("Po.principals", ps)), s),
                                  patterns=[Select(h.sset(h.f("Po.principals", pn)), s)])),
            ("metadata", ForAll([k], And(Select(h.f(DOM, md), k) == Select(a.f(DOM, sd), k), Implies(
                Select(a.f(DOM, sd), k), Select(h.f(VAL, md), k) == Select(a.f(VAL, sd), k))),
                patterns=[Select(h.f(DOM, md), k), Select(h.f(VAL, md), k)])),
            ("nothing shared with the snapshot", And(Not(Select(a.st.alloc, pn)), Not(Select(a.st.alloc, h.f("Po.principals", pn))),
                                                     md != null, Not(Select(a.st.alloc, md)))),
        ]

    def entries(self, seen, j):
        n = self.h.at(self.vfs, segs(L.parse(self.k)))
        nm, f = self.parts(Select(self.val, self.k), n)[j]
        return nm, ForAll([self.k], Implies(And(Select(seen, self.k), Select(self.dom, self.k)), f),
                          patterns=[Select(seen, self.k), L.parse(self.k)])

    def others(self):
        l = self.h.at(self.vfs, self.p)
        return ForAll([self.p], Implies(l != null, Select(self.dom, L.pstr(P(1, self.p)))), patterns=[l])

    def cwd(self):
        w = self.a.f("S.cwd", self.snap)
        l = self.h.at(self.vfs, segs(w))
        there = And(l != null, L.isdir(l))
        return Implies(And(anchor(w) == 1, L.nodots(segs(w))),
                       self.h.f("V.cwd", self.vfs) == If(there, l, self.h.root(self.vfs)))


NPARTS = 8


def rs_setup(x):
    x.eng.rs_pre = x.pre.copy()


def rs_hints(eng, entry, changed, g, node, b):
    out = []
    seen = eng.loop_seen
    if seen is None or seen[1].domain() != S:
        return out
    a0, vfs, snap = H(eng, eng.rs_pre), eng.args["self"].t, eng.args["snapshot"].t
    mk = lambda st: Sn(a0, H(eng, st), vfs, snap)

    def c(nm, fn):
        fn.nm = nm
        out.append(fn)
    for j in range(NPARTS):
        c("as captured so far %d" % j, lambda st, g, j=j: Implies(mk(st).ok(), mk(st).entries(st.ghost[seen[0]], j)[1]))
    c("no other nodes so far", lambda st, g: Implies(And(mk(st).ok(), Select(mk(st).dom, lit("/"))), mk(st).others()))
    return out


def restored(x):
    s = Sn(pre(x), post(x), x.t("self"), x.t("snapshot"))
    return [("as captured: %s" % nm, Implies(s.ok(), f)) for nm, f in (s.entries(s.dom, j) for j in range(NPARTS))] + [
        ("no other nodes", Implies(And(s.ok(), Select(s.dom, lit("/"))), s.others())),
        ("the working directory", Implies(s.ok(), s.cwd())),
        ("the storage mounts", mounts_back(x))]


def mounts_back(x):
    a, b, k = pre(x), post(x), Const("k", S)
    sm, m = a.f("S.storage_mounts", x.t("snapshot")), b.f("V._storage_mounts", x.t("self"))
    return Implies(ForAll([k], Implies(Select(a.f(SD, sm), k), L.pstr(L.parse(k)) == k), patterns=[Select(a.f(SD, sm), k)]),
                   ForAll([k], Implies(Select(a.f(SD, sm), k), And(
                       Select(b.f(PD, m), L.parse(k)), Select(b.f(PV, m), L.parse(k)) == Select(a.f(SV, sm), k))),
                       patterns=[Select(a.f(SD, sm), k)]))


contract("VirtualFileSystem.restore", [("self", VFS), ("snapshot", SNAP)], mods=RST, alloc=True, own="C02",
         use_hints=("frame Po.", "frame dict", "frame set", "entries are only", "no new", "kinds of", "as captured", "no other nodes"),
         setup=rs_setup, hints=rs_hints,
         ensures=[ens("restored", "C14", restored)],
         raises={"?": dict(mods=RST, alloc=True), "InvalidOperation": dict(mods=RST, alloc=True), "NodeNotFound": dict(mods=RST, alloc=True)})


# ---------------------------------------------------------------- taking one
TAKE = LOAD | OWN | DOBJ | {ND, NV, "K.is_dir", "K.metadata", "K.policy", "K.version", "K.created_at", "K.modified_at", "K.content",
                            "K.content#1", "S.nodes", "S.cwd", "S.storage_mounts", "dict<str,ref<StorageAdapter>>.dom",
                            "dict<str,ref<StorageAdapter>>.val0"}


SD, SV = "dict<str,ref<StorageAdapter>>.dom", "dict<str,ref<StorageAdapter>>.val0"
PD, PV = "dict<path,ref<StorageAdapter>>.dom", "dict<path,ref<StorageAdapter>>.val0"


def captured(x):
    a, b, vfs = pre(x), post(x), x.t("self")
    s = Sn(b, a, vfs, x.res.t)
    key = L.pstr(P(1, s.p))
    n = a.at(vfs, s.p)
    e = Select(s.val, key)
    out = [("every path", ForAll([s.p], Implies(n != null, And(Select(s.dom, key), e != null)), patterns=[n])),
           ("no other", ForAll([s.k], Implies(Select(s.dom, s.k), And(
               anchor(L.parse(s.k)) == 1, L.pstr(L.parse(s.k)) == s.k, a.at(vfs, segs(L.parse(s.k))) != null)), patterns=[Select(s.dom, s.k)])),
           ("the working directory", b.f("S.cwd", x.res.t) == P(1, a.path(a.f("V.cwd", vfs))))]
    m, sm, pp = a.f("V._storage_mounts", vfs), b.f("S.storage_mounts", x.res.t), Const("m", L.Path)
    legal = ForAll([pp], Implies(Select(a.f(PD, m), pp), L.parse(L.pstr(pp)) == pp), patterns=[Select(a.f(PD, m), pp)])    # true of every path
    out.append(("the storage mounts", Implies(legal, ForAll([pp], Implies(Select(a.f(PD, m), pp), And(
        Select(b.f(SD, sm), L.pstr(pp)), Select(b.f(SV, sm), L.pstr(pp)) == Select(a.f(PV, m), pp))), patterns=[Select(a.f(PD, m), pp)]))))
    for nm, f in captured_parts(a, b, x.pre.alloc, n, e):
        out.append((nm, ForAll([s.p], Implies(n != null, f), patterns=[n, e])))
    return out


def captured_parts(a, b, A, n, e):
    md, sd = a.f("N.metadata", n), b.f("K.metadata", e)
    pn, ps = a.f("N.policy", n), b.f("K.policy", e)
    k, s = Const("j", S), Const("s", S)
    return [
        ("kind", b.f("K.is_dir", e) == L.isdir(n)),
        ("text", Implies(And(L.isfile(n), a.f("N._provider", n)), And(Not(b.f("K.content", e)), b.f("K.content#1", e) == a.f("N._content", n)))),
        ("version", b.f("K.version", e) == a.f("N.version", n)),
        ("times", And(b.f("K.created_at", e) == a.f("N.created_at", n), b.f("K.modified_at", e) == a.f("N.modified_at", n))),
        ("policy", And([b.f("Po." + f, ps) == a.f("Po." + f, pn) for f in ("readable", "writable", "append_only", "classification")])),
        ("principals", b.sset(b.f("Po.principals", ps)) == a.sset(a.f("Po.principals", pn))),
        ("metadata", ForAll([k], And(Select(b.f(DOM, sd), k) == Select(a.f(DOM, md), k), Implies(
            Select(a.f(DOM, md), k), Select(b.f(VAL, sd), k) == Select(a.f(VAL, md), k))),
            patterns=[Select(b.f(DOM, sd), k), Select(b.f(VAL, sd), k)])),
        ("nothing shared with the tree", And(Not(Select(A, ps)), Not(Select(A, b.f("Po.principals", ps))), Not(Select(A, sd)))),
    ]


NEWSNAP = ("NodeSnapshot", "VFSSnapshot", "NodePolicy", "<collection>")

contract("VirtualFileSystem.snapshot", [("self", VFS)], ret=SNAP, mods=TAKE, alloc=NEWSNAP, frame="C14",
         inline=("VirtualFileSystem._clone_policy",),
         ensures=[ens("captured", "C14", captured)],
         raises={"?": dict(mods=TAKE, alloc=NEWSNAP), "ProviderError": dict(mods=TAKE, alloc=NEWSNAP)})
