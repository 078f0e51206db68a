"""The tree invariant, its consequences, and the lemma instances for tree updates.

Invariant of every reachable state (class invariant of VirtualFileSystem and its nodes):
  kids    an entry of a directory has that directory as parent and its key as name
  names   a node with a parent has a legal name (non-empty, no '/', not '.' or '..') and its parent is a directory
  rooted  every parent chain ends
  roots   a filesystem's root is a directory without parent, its working directory is a directory
"""
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, Select, Store, ForAll, Const, MultiPattern
from . import logic as L
from .logic import fresh, S, Ref, SL, null, lit, Nil, Snoc, prefix, lookup, pathOf, rooted, anc

KEYS = ("N.kids", "N.parent", "N.name", "V.root", "V.cwd")
BS = z3.ArraySort(Ref, z3.BoolSort())


class T:
    """The arrays of one state."""

    def __init__(self, eng, st):
        from .contract import key_sort
        g = lambda k: eng.harr(st, k, key_sort(eng, k))
        self.K, self.Pa, self.Na, self.R, self.W = [g(k) for k in KEYS]
        self.A = st.alloc

    def ident(self):
        return tuple(x.get_id() for x in (self.K, self.Pa, self.Na, self.R, self.W, self.A))


def invariant(t):
    d, n, v = z3.Consts("d n v", Ref)
    x = Const("x", S)
    k = Select(Select(t.K, d), x)
    node = And(Select(t.A, n), L.isnode(n))
    vfs = And(Select(t.A, v), L.clsof(v) == L.cls_id("VirtualFileSystem"))
    return [
        ("kids", ForAll([d, x], Implies(And(Select(t.A, d), L.isdir(d), k != null),
                                        And(Select(t.Pa, k) == d, Select(t.Na, k) == x, L.isnode(k))), patterns=[k])),
        ("names", ForAll([n], Implies(And(node, Select(t.Pa, n) != null),
                                      And(L.clean(Select(t.Na, n)), Select(t.Na, n) != lit(".."),
                                          L.isdir(Select(t.Pa, n)))),
                         patterns=[Select(t.Pa, n), Select(t.Na, n)])),
        ("rooted", ForAll([n], Implies(node, rooted(t.Pa, n)), patterns=[rooted(t.Pa, n), Select(t.Pa, n)])),
        ("roots", ForAll([v], Implies(vfs, And(L.isdir(Select(t.R, v)), Select(t.Pa, Select(t.R, v)) == null,
                                               L.isdir(Select(t.W, v)))),
                         patterns=[Select(t.R, v), Select(t.W, v)])),
    ]


def derived(t):
    """Consequences of the invariant, by induction (lemmas.py proves it)."""
    n, m, v = z3.Consts("n m v", Ref)
    p = Const("p", SL)
    node = And(Select(t.A, n), L.isnode(n))
    vfs = And(Select(t.A, v), L.clsof(v) == L.cls_id("VirtualFileSystem"))
    Na = Const("Nq", L.NameArr)
    lk = lookup(t.K, Select(t.R, v), p)
    a = Const("a", Ref)
    ln = lookup(t.K, n, p)
    return [
        ForAll([n], Implies(node, And(L.nodots(pathOf(t.Pa, t.Na, n)), rooted(t.Pa, n))),
               patterns=[pathOf(t.Pa, t.Na, n)]),
        ForAll([n, Na], Implies(node, rooted(t.Pa, n)), patterns=[pathOf(t.Pa, Na, n)]),
        ForAll([v, p], Implies(And(vfs, lk != null),
                               And(Select(t.A, lk), L.isnode(lk), pathOf(t.Pa, t.Na, lk) == p,
                                   rooted(t.Pa, lk))), patterns=[lk]),
        ForAll([a, n], Implies(And(node, Not(Select(t.A, a))), Not(anc(t.Pa, a, n))), patterns=[anc(t.Pa, a, n)]),
        ForAll([n, p], Implies(And(node, ln != null), And(Select(t.A, ln), L.isnode(ln), rooted(t.Pa, ln),
                                                          pathOf(t.Pa, t.Na, ln) == L.cat(pathOf(t.Pa, t.Na, n), p),
                                                          anc(t.Pa, n, ln))),
               patterns=[ln]),
    ]


# ---------------------------------------------------------------- lemma instances for updates
def parent_store(Pa, n, d, Pb):
    """Pb = Pa with the parent of n set to d, which does not lie below n."""
    m, a = z3.Consts("m a", Ref)
    Na = Const("Nq", L.NameArr)
    ok = Or(d == null, And(rooted(Pa, d), Not(anc(Pa, n, d))))
    up = Select(Pa, d)
    return [
        Implies(And(d != null, rooted(Pa, d)), anc(Pa, n, d) == Or(n == d, And(up != null, anc(Pa, n, up)))),
        Implies(ok, ForAll([m], Implies(Or(rooted(Pa, m), m == n), rooted(Pb, m)), patterns=[rooted(Pb, m)])),
        ForAll([m, Na], Implies(And(rooted(Pa, m), Not(anc(Pa, n, m))),
                                And(pathOf(Pb, Na, m) == pathOf(Pa, Na, m), rooted(Pb, m))),
               patterns=[pathOf(Pb, Na, m)]),
        ForAll([a, m], Implies(And(rooted(Pa, m), Not(anc(Pa, n, m))), anc(Pb, a, m) == anc(Pa, a, m)),
               patterns=[anc(Pb, a, m)]),
    ]


def kept_chains(t0, t):
    """Nodes of t0 whose parents and names are the same in t: their chains lead through nodes of t0 only (lemmas.py proves it)."""
    if t.Pa.eq(t0.Pa) and t.Na.eq(t0.Na):
        return []
    m, a, r = z3.Consts("m a r", Ref)
    old = lambda n: And(Select(t0.A, n), L.isnode(n))
    up = Select(t0.Pa, r)
    fr = fresh("kept", Ref)
    bad = And(old(fr), Or(Select(t.Pa, fr) != Select(t0.Pa, fr), Select(t.Na, fr) != Select(t0.Na, fr),
                          And(Select(t0.Pa, fr) != null, Not(old(Select(t0.Pa, fr))))))
    return [Or(bad, And(
        ForAll([m], Implies(And(old(m), rooted(t0.Pa, m)), And(pathOf(t.Pa, t.Na, m) == pathOf(t0.Pa, t0.Na, m), rooted(t.Pa, m))),
               patterns=[pathOf(t.Pa, t.Na, m)]),
        ForAll([a, m], Implies(And(old(m), rooted(t0.Pa, m), Not(old(a))), Not(anc(t.Pa, a, m))), patterns=[anc(t.Pa, a, m)])))]


def name_store(Pas, Na, n, x, Nb):
    m = Const("m", Ref)
    Pa = Const("Pq", L.PathArr)
    return [ForAll([Pa, m], Implies(And(rooted(Pa, m), Not(anc(Pa, n, m))), pathOf(Pa, Nb, m) == pathOf(Pa, Na, m)),
                   patterns=[pathOf(Pa, Nb, m)])]


def kid_store(K, d, x, v, Kb, root, q):
    """Kb = K with entry x of directory d set to v; d has no other path than q below root."""
    p = Const("p", SL)
    r = Const("r", SL)
    inj = ForAll([r], Implies(lookup(K, root, r) == d, r == q), patterns=[lookup(K, root, r)])
    n = Snoc(q, x)
    out = [
        Implies(And(d != null, inj),
                ForAll([p], Implies(Not(prefix(n, p)), lookup(Kb, root, p) == lookup(K, root, p)),
                       patterns=[lookup(Kb, root, p)])),
        Implies(And(d != null, L.isdir(d), inj, lookup(K, root, q) == d), lookup(Kb, root, n) == v),
        Implies(And(d != null, L.isdir(d), inj, lookup(K, root, q) == d),
                ForAll([p], Implies(prefix(n, p), lookup(Kb, root, p) == lookup(Kb, v, L.drop(p, n))),
                       patterns=[lookup(Kb, root, p)])),
        # a directory that is not attached below root does not matter
        Implies(And(d != null, ForAll([r], lookup(K, root, r) != d, patterns=[lookup(K, root, r)])),
                ForAll([p], lookup(Kb, root, p) == lookup(K, root, p), patterns=[lookup(Kb, root, p)])),
    ]
    return out


def subtree_store(K, d, Kb, n, Pa):
    """An update of directory d does not show below n when d is not below n: lookups from n reach only nodes
    whose parent chain passes n."""
    p, r = Const("p", SL), Const("r", SL)
    return [Implies(ForAll([r], lookup(K, n, r) != d, patterns=[lookup(K, n, r)]),
                    ForAll([p], lookup(Kb, n, p) == lookup(K, n, p), patterns=[lookup(Kb, n, p)]))]


def null_lookup(K, n):
    p = Const("p", SL)
    y = Const("y", S)
    return [ForAll([p], lookup(K, null, p) == null, patterns=[lookup(K, null, p)]),
            Implies(Or(Not(L.isdir(n)), ForAll([y], Select(Select(K, n), y) == null, patterns=[Select(Select(K, n), y)])),
                    ForAll([p], Implies(p != Nil, lookup(K, n, p) == null), patterns=[lookup(K, n, p)]))]


def kids_replace(K, d, Kb, root, v, dp):
    """Kb = K with the entries of d, which lies at most at dp, replaced by v (lemmas.py proves it)."""
    p, r = Const("p", SL), Const("r", SL)
    below = And(prefix(dp, p), p != dp)
    l = lookup(Kb, root, p)
    while z3.is_store(K) and K.arg(1).eq(d):
        K = K.arg(0)
    out = [Implies(And(d != null, root != null, ForAll([r], Implies(lookup(K, root, r) == d, r == dp), patterns=[lookup(K, root, r)])),
                   ForAll([p], And(Implies(Not(below), l == lookup(K, root, p)),
                                   Implies(And(below, lookup(K, root, dp) == d, v == z3.K(S, null)), l == null)), patterns=[l]))]
    return out + [Implies(And(d != null, ForAll([r], lookup(K, root, r) != d, patterns=[lookup(K, root, r)])),
                    ForAll([p], lookup(Kb, root, p) == lookup(K, root, p), patterns=[lookup(Kb, root, p)]))]


def instances(eng, st, roots):
    """Lemma instances for the tree updates recorded on this path."""
    out = []
    for ev in st.ghost.get("ev", ()):
        if ev[0] == "N.parent":
            _, old, n, d = ev
            out += parent_store(old, n, d, Store(old, n, d))
        elif ev[0] == "N.name":
            _, old, n, x = ev
            out += name_store(None, old, n, x, Store(old, n, x))
        elif ev[0] == "N.kids":
            _, old, d, x, v, Pa, Na = ev
            nw = Store(old, d, Store(Select(old, d), x, v) if x is not None else v)
            for root in roots:
                if x is not None:
                    out += kid_store(old, d, x, v, nw, root, pathOf(Pa, Na, d))
                else:
                    out += kids_replace(old, d, nw, root, v, pathOf(Pa, Na, d))
            if x is not None and not v.eq(null):
                out += subtree_store(old, d, nw, v, Pa)
                out += null_lookup(nw, v)
            else:
                out += null_lookup(nw, null)
                if x is None:
                    out += null_lookup(nw, d)
        elif ev[0] == "subtree":
            # lookups from node n in state K (for moved nodes)
            pass
    return out
