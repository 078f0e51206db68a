"""Contracts: move, copy and remove."""
from .specs import *
from .specs_fs import *
from .specs_ops import *

REB = "the walk over the whole tree is outside the verifier's reach; decided by the bounded check (C15)"


def in_search_view(h, vfs, p):
    """p lies in the mounted search view."""
    none, q = h.f("V._search_view_prefix", vfs), h.f("V._search_view_prefix#1", vfs)
    return And(Not(none), matches(P(1, p), q))


def rebuilt(x):
    a, b = pre(x), post(x)
    vfs = x.t("self")
    ixr = a.f("V._full_text_index", vfs)
    d = a.f("I._files", ixr)
    D, V = b.f("dict<path,str>.dom", d), b.f("dict<path,str>.val0", d)
    p, r = Const("p", L.SL), Const("r", Ref)
    n = lookup(a.K, a.root(vfs), p)
    file = And(n != null, L.isfile(n), Not(in_search_view(a, vfs, p)))
    k = Select(D, P(1, p))
    return [
        ("the stored files", Implies(ixr != null, ForAll([p], And(Implies(k, file), Implies(And(file, a.f("N._provider", n)), And(
            k, Select(V, P(1, p)) == a.f("N._content", n)))), patterns=[k]))),
        ("other dictionaries", And([ForAll([r], Implies(And(Select(x.pre.alloc, r), Or(ixr == null, r != d)), b.f(f, r) == a.f(f, r)),
                                           patterns=[b.f(f, r)]) for f in sorted(INDEX)])),
    ]


contract("VirtualFileSystem._rebuild_index", [("self", VFS)], mods=LOAD | INDEX,
         ensures=[ens("index", "C15", rebuilt), GROWS], raises={"?": dict(mods=LOAD | INDEX)}, inline=("FullTextIndex.build", "FullTextIndex.index_file", "FullTextIndex.clear"))

# ---------------------------------------------------------------- move
MOVEARGS = [("self", VFS), ("source", PATHARG), ("target", PATHARG)]


class Mv:
    """The nodes a move or copy is about, in the state before it."""

    def __init__(self, x):
        h = self.h = pre(x)
        v = x.t("self")
        self.cs, self.ct = h.canon(v, x["source"]), h.canon(v, x["target"])
        self.node = h.at(v, self.cs)
        self.parent, self.name = h.f("N.parent", self.node), h.f("N.name", self.node)
        t = self.t = h.at(v, self.ct)
        self.into = And(t != null, L.isdir(t))
        up = h.at(v, L.init(self.ct))
        self.D = x.eng.named(If(self.into, t, up), "dest")
        self.nm = x.eng.named(If(self.into, self.name, L.last(self.ct)), "destname")
        self.root = h.root(v)
        self.noop = And(self.D == self.parent, self.nm == self.name)


def mv_terms(x):
    m = Mv(x)
    v = x.t("self")
    return [L.mark(h.at(v, p)) for h in (pre(x), post(x)) for p in (m.cs, m.ct, L.init(m.ct), L.init(m.cs))]


def moved_entries(x):
    m = Mv(x)
    a, b = pre(x), post(x)
    d, s = Const("d", Ref), Const("s", S)
    k0, k1 = Select(Select(a.K, d), s), Select(Select(b.K, d), s)
    return [
        ("a node and a directory to move it to", And(m.node != null, m.node != m.root, Or(m.t == null, L.isdir(m.t)), m.D != null, L.isdir(m.D))),
        ("nothing is replaced", Or(m.noop, Select(Select(a.K, m.D), m.nm) == null)),
        ("the entry is taken from its directory and added to the other", ForAll([d, s], Implies(Select(x.pre.alloc, d), k1 == If(
            m.noop, k0, If(And(d == m.D, s == m.nm), m.node, If(And(d == m.parent, s == m.name), null, k0)))), patterns=[k1])),
    ]


def moved_node(x):
    m = Mv(x)
    a, b = pre(x), post(x)
    r = Const("r", Ref)
    return [("name", ForAll([r], Implies(Select(x.pre.alloc, r), b.f("N.name", r) == If(r == m.node, m.nm, a.f("N.name", r))),
                            patterns=[b.f("N.name", r)])),
            ("parent", ForAll([r], Implies(Select(x.pre.alloc, r), b.f("N.parent", r) == If(r == m.node, m.D, a.f("N.parent", r))),
                              patterns=[b.f("N.parent", r)]))]


def moved_index(x):
    m = Mv(x)
    a, b = pre(x), post(x)
    ixr = a.f("V._full_text_index", x.t("self"))
    d = a.f("I._files", ixr)
    D0, D1 = a.f("dict<path,str>.dom", d), b.f("dict<path,str>.dom", d)
    V0, V1 = a.f("dict<path,str>.val0", d), b.f("dict<path,str>.val0", d)
    q, p = Const("q", L.Path), Const("p", L.SL)
    new = P(1, b.path(m.node))
    old = P(1, m.cs)
    n = lookup(b.K, b.root(x.t("self")), p)
    file = And(n != null, L.isfile(n), Not(in_search_view(b, x.t("self"), p)))
    k = Select(D1, P(1, p))
    stored = a.f("N._provider", m.node)
    return [
        ("of a file", Implies(And(ixr != null, Not(m.noop), L.isfile(m.node), stored), And(
            Not(Select(D1, old)), Select(D1, new), Select(V1, new) == a.f("N._content", m.node)))),
        ("of nothing else", Implies(And(ixr != null, L.isfile(m.node)), ForAll([q], Implies(And(q != old, q != new), And(
            Select(D1, q) == Select(D0, q))), patterns=[Select(D1, q), Select(V1, q)]))),
        ("of no other text", Implies(And(ixr != null, L.isfile(m.node)), ForAll([q], Implies(And(q != old, q != new), And(
            Select(V1, q) == Select(V0, q))), patterns=[Select(D1, q), Select(V1, q)]))),
        ("of a directory", Implies(And(ixr != null, Not(m.noop), L.isdir(m.node)), ForAll([p], And(
            Implies(k, file), Implies(And(file, b.f("N._provider", n)), And(k, Select(V1, P(1, p)) == b.f("N._content", n)))), patterns=[k]))),
    ]


REFUSED = {c: dict(mods=LOAD, ensures=[GROWS]) for c in ("InvalidOperation", "NodeExists", "NodeNotFound", "ProviderError")}
MOVE = LOAD | INDEX | {"N.kids", "N.name", "N.parent"}

contract("VirtualFileSystem.move", MOVEARGS, mods=MOVE, frame="C03 C09 C19", xframe="C04", lemmas=mv_terms,
         covers=[("a file", lambda x: And(L.isfile(Mv(x).node), Not(Mv(x).noop))),
                 ("a directory", lambda x: And(L.isdir(Mv(x).node), Not(Mv(x).noop))),
                 ("into a directory", lambda x: Mv(x).into), ("under a new name", lambda x: Mv(x).t == null)],
         ensures=[
             ens("entries", "C01 C19 C03", moved_entries),
             ens("the same node", "C19 C03", moved_node),
             ens("never into itself", "C02", lambda x: Not(prefix(Mv(x).cs, pre(x).path(Mv(x).D)))),
             ens("the policies allowed it", "C05", lambda x: And(
                 may_write(pre(x), Mv(x).node, FALSE), pre(x).writable(Mv(x).parent), pre(x).writable(Mv(x).D))),
             ens("index", "C15", moved_index), GROWS],
         raises=dict(REFUSED, **{"?": dict(mods=MOVE)}), props=("C09",))
