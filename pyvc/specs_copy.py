"""Contracts: copies."""
from .specs import *
from .specs_fs import *
from .specs_ops import *
from .specs_move import *

cloneof = z3.Function("cloneof", Ref, Ref)       # ghost: the node a new node was made from
POL = ("Po.readable", "Po.writable", "Po.append_only", "Po.classification")
DOM, VAL, SET = "dict<str,obj>.dom", "dict<str,obj>.val0", "set<str>.items"
OWN = {"Po.readable", "Po.writable", "Po.append_only", "Po.classification", "Po.principals", SET}


def same_policy(a, b, A0, p, q):
    """Policy q (in b) is a copy of policy p (in a) that shares nothing with what existed."""
    return [And([b.f(k, q) == a.f(k, p) for k in POL]), b.sset(b.f("Po.principals", q)) == a.sset(a.f("Po.principals", p)),
            And(q != null, Not(Select(A0, q)), Select(b.st.alloc, q), Not(Select(A0, b.f("Po.principals", q))))]


def old_same(x, *keys):
    r = Const("r", Ref)
    return And([ForAll([r], Implies(Select(x.pre.alloc, r), post(x).f(k, r) == pre(x).f(k, r)), patterns=[post(x).f(k, r)]) for k in keys])


contract("VirtualFileSystem._clone_policy", [("self", VFS), ("policy", ("ref", "NodePolicy"))], ret=("ref", "NodePolicy"), mods=OWN,
         alloc=("NodePolicy", "<collection>"),
         ensures=[ens("a copy of its own", "C19 C05", lambda x: list(zip(("fields", "principals", "fresh"), same_policy(
             pre(x), post(x), x.pre.alloc, x.t("policy"), x.res.t)))),
             ens("other policies stay", "C19 C05 C09", lambda x: old_same(x, *sorted(OWN)))])


def cloned_parts(a, b, A0, O, m, s):
    """Node m (in b) is a copy of node s (in a)."""
    k = Const("k", S)
    md, sd = b.f("N.metadata", m), a.f("N.metadata", s)
    d1, d0, v1, v0 = b.f(DOM, md), a.f(DOM, sd), b.f(VAL, md), a.f(VAL, sd)
    c, o = Select(Select(b.K, m), k), Select(Select(a.K, s), k)
    pol = same_policy(a, b, A0, a.f("N.policy", s), b.f("N.policy", m))
    return [
        ("of the same kind", And(s != null, Select(O, s), L.isnode(s), L.isfile(m) == L.isfile(s), L.isdir(m) == L.isdir(s))),
        ("policy", pol[0]), ("principals", pol[1]), ("a policy of its own", pol[2]),
        ("metadata", ForAll([k], And(Select(d1, k) == Select(d0, k), Implies(Select(d0, k), Select(v1, k) == Select(v0, k))),
                            patterns=[Select(d1, k), Select(v1, k)])),
        ("metadata of its own", And(md != null, Not(Select(A0, md)), Select(b.st.alloc, md))),
        ("text", Implies(L.isfile(m), And(b.f("N._provider", m), b.f("N._content", m) == a.text(s)))),
        ("loaded", Implies(L.isdir(m), b.loaded(m))),
        ("entries", Implies(L.isdir(m), ForAll([k], And((c == null) == (o == null), Implies(c != null, And(
            cloneof(c) == o, Not(Select(A0, c)))))
            , patterns=[c]))),
    ]


def all_cloned(a, b, A0, O, but):
    """Every node that is new, except those given, is a copy of the node it was made from."""
    m = Const("m", Ref)
    out = []
    for nm, f in cloned_parts(a, b, A0, O, m, cloneof(m)):
        out.append((nm, ForAll([m], Implies(And(Select(b.st.alloc, m), Not(Select(A0, m)), L.isnode(m), *[m != y for y in but], L.true_of(cloneof(m))), f),
                               patterns=[cloneof(m)])))
    return out


OLD = Const("old", z3.ArraySort(Ref, z3.BoolSort()))


def old_nodes(x):
    """Ghost argument: a set of nodes that the copied nodes come from; what existed when the outermost copy began."""
    return OLD if x.eng.verifying is x.contract else x.pre.alloc


def clone_requires(x):
    h, O = pre(x), old_nodes(x)
    d, k, r = Const("d", Ref), Const("k", S), Const("r", Ref)
    c = Select(Select(h.K, d), k)
    return [("the node existed", Select(O, x.t("node"))),
            ("they exist", ForAll([r], Implies(Select(O, r), And(r != null, Select(x.pre.alloc, r))), patterns=[Select(O, r)])),
            ("with their entries", ForAll([d, k], Implies(And(Select(O, d), L.isdir(d), c != null), Select(O, c)), patterns=[c]))]


def clone_setup(x):
    x.eng.clone_pre = x.pre.copy()


def clone_hints(eng, entry, changed, g, node, b):
    out = []
    p0 = H(eng, eng.clone_pre)
    A0 = eng.clone_pre.alloc
    src = eng.args["node"].t
    fresh_dirs = []
    for f, env in b["envs"].items():
        for nm, v in env.items():
            if isinstance(v, Val) and v.T == ("ref", "VirtualDirectory") and str(v.t).startswith("new_"):
                if not any(v.t.eq(y) for y in fresh_dirs):
                    fresh_dirs.append(v.t)

    def c(nm, fn):
        fn.nm = nm
        out.append(fn)
    k = Const("k", S)
    seen = eng.loop_seen
    for d in fresh_dirs:
        def part(st, g, d=d):
            e, o = Select(Select(H(eng, st).K, d), k), Select(Select(p0.K, src), k)
            return ForAll([k], Implies(e != null, And(o != null, cloneof(e) == o, Not(Select(A0, e)), e != d)), patterns=[e])
        c("entries so far are copies", part)

        def old_part(st, g, d=d):
            return And(Not(Select(A0, d)), H(eng, st).f("N.parent", d) == null, H(eng, st).loaded(d))
        c("still detached", old_part)
        if seen is not None and seen[1].domain() == S:
            def so_far(st, g, d=d):
                e = Select(Select(H(eng, st).K, d), k)
                return ForAll([k], Select(st.ghost[seen[0]], k) == (e != null), patterns=[e, Select(st.ghost[seen[0]], k)])
            c("exactly the visited entries", so_far)

    d = Const("d", Ref)

    def same_src(st, g):
        e, o = Select(Select(H(eng, st).K, d), k), Select(Select(p0.K, d), k)
        return ForAll([d, k], Implies(Select(A0, d), e == o), patterns=[e])
    c("what existed keeps its entries", same_src)

    def same_paths(st, g):
        pa = H(eng, st).path(d)
        return ForAll([d], Implies(And(Select(A0, d), L.isnode(d)), pa == p0.path(d)), patterns=[pa])
    c("what existed keeps its path", same_paths)
    n = len(cloned_parts(p0, H(eng, entry), A0, OLD, null, null))
    for j in range(n):
        c("new nodes are copies: %d" % j, lambda st, g, j=j: all_cloned(p0, H(eng, st), A0, OLD, fresh_dirs)[j][1])
    return out


CLONEM = LOAD | OWN | {"N.kids", "N.parent", "N.name", "N.policy", "N.metadata", "N._content", "N._provider", "N.version",
                       "N.created_at", "N.modified_at", "N.loader", "dict<str,obj>.dom", "dict<str,obj>.val0"}
KEPT = sorted(CLONEM - LOAD - {"N.kids"} | {"N._provider#1", "N.loader#1"})


def clone_keeps(x):
    m, r = Const("m", Ref), Const("r", Ref)
    return [("fields", old_same(x, *KEPT)), ("entries", same_tree(x)), ("paths", ForAll([m], Implies(
        And(Select(x.pre.alloc, m), L.isnode(m)), post(x).path(m) == pre(x).path(m)), patterns=[post(x).path(m)])),
        ("chains", ForAll([r, m], Implies(And(Select(x.pre.alloc, m), L.isnode(m), Not(Select(x.pre.alloc, r))), Not(L.anc(
            post(x).Pa, r, m))), patterns=[L.anc(post(x).Pa, r, m)]))]


def clone_post(x):
    a, b, A0 = pre(x), post(x), x.pre.alloc
    r, n = x.res.t, x.t("node")
    O = old_nodes(x)
    return [("a new detached node", And(Not(Select(A0, r)), L.isnode(r), r != null, b.f("N.parent", r) == null)),
            ("of that name", b.f("N.name", r) == a.f("N.name", n))] + [
        ("result: " + nm, f) for nm, f in cloned_parts(a, b, A0, O, r, n)] + [("below: " + nm, f) for nm, f in all_cloned(a, b, A0, O, [r])]


contract("VirtualFileSystem._clone_node", [("self", VFS), ("node", NODE), ("recursive", "bool")], ret=NODE, mods=CLONEM, alloc=True,
         keeps=True, setup=clone_setup, requires=clone_requires, nohints=("new nodes are in", "no entry is added when", "nothing is made", "the tree is unchanged", "nothing was added", "frame N._loaded", "frame N.pk"), hints=clone_hints, recursive=True,
         ghost=lambda x: [] if x.exc is not None else [cloneof(x.res.t) == x.t("node")],
         covers=[("a file", lambda x: L.isfile(x.t("node"))), ("a directory", lambda x: L.isdir(x.t("node")))],
         ensures=[ens("a copy", "C19", clone_post), ens("what existed stays as it is", "C19 C03 C04 C05 C09", clone_keeps), GROWS],
         raises={c: dict(mods=CLONEM, alloc=True, ensures=[ens("what existed stays as it is", "C04 C19", clone_keeps), GROWS])
                 for c in ("ProviderError", "?")})

# ---------------------------------------------------------------- copy
COPYARGS = [("self", VFS), ("source", PATHARG), ("target", PATHARG), ("recursive", "bool")]


class Cp(Mv):
    def __init__(self, x):
        super().__init__(x)
        self.D = x.eng.named(If(self.into, self.t, self.h.at(x.t("self"), L.init(self.ct))), "dest")
        self.over = And(self.t != null, L.isfile(self.t))
        if x.post is not None and x.exc is None:
            self.clone = x.eng.named(Select(Select(post(x).K, self.D), self.nm), "clone")


def cp_terms(x):
    m = Mv(x)
    v = x.t("self")
    return [L.mark(h.at(v, p)) for h in (pre(x), post(x)) for p in (m.cs, m.ct, L.init(m.ct))]


def copied_entries(x):
    m = Cp(x)
    a, b = pre(x), post(x)
    d, s = Const("d", Ref), Const("s", S)
    k0, k1 = Select(Select(a.K, d), s), Select(Select(b.K, d), s)
    return [
        ("a node and a directory to copy it to", And(m.node != null, m.D != null, L.isdir(m.D))),
        ("only a file is replaced, and not by itself", Or(Select(Select(a.K, m.D), m.nm) == null, And(m.over, m.t != m.node))),
        ("one entry is added or replaced", ForAll([d, s], Implies(And(Select(x.pre.alloc, d), Or(d != m.D, s != m.nm)), k1 == k0), patterns=[k1])),
        ("by a new node", And(m.clone != null, Not(Select(x.pre.alloc, m.clone)), b.f("N.parent", m.clone) == m.D, b.f("N.name", m.clone) == m.nm)),
    ]


def copied_nodes(x):
    m = Cp(x)
    a, b, A0 = pre(x), post(x), x.pre.alloc
    return [("result: " + nm, f) for nm, f in cloned_parts(a, b, A0, A0, m.clone, m.node)] + [
        ("below: " + nm, f) for nm, f in all_cloned(a, b, A0, A0, [m.clone])]


def copied_index(x):
    m = Cp(x)
    a, b = pre(x), post(x)
    ixr = a.f("V._full_text_index", x.t("self"))
    d = a.f("I._files", ixr)
    D0, D1 = a.f("dict<path,str>.dom", d), b.f("dict<path,str>.dom", d)
    V0, V1 = a.f("dict<path,str>.val0", d), b.f("dict<path,str>.val0", d)
    q, p = Const("q", L.Path), Const("p", L.SL)
    new = P(1, Snoc(a.path(m.D), m.nm))
    n = lookup(b.K, b.root(x.t("self")), p)
    file = And(n != null, L.isfile(n), Not(in_search_view(b, x.t("self"), p)))
    k = Select(D1, P(1, p))
    isf = And(ixr != null, L.isfile(m.node))
    return [
        ("of a file", Implies(isf, And(Select(D1, new), Select(V1, new) == a.text(m.node)))),
        ("of nothing else", Implies(isf, ForAll([q], Implies(q != new, And(Select(D1, q) == Select(D0, q), Select(V1, q) == Select(V0, q))),
                                                patterns=[Select(D1, q), Select(V1, q)]))),
        ("of a directory", Implies(And(ixr != null, L.isdir(m.node)), ForAll([p], And(
            Implies(k, file), Implies(And(file, b.f("N._provider", n)), And(k, Select(V1, P(1, p)) == b.f("N._content", n)))), patterns=[k]))),
    ]


COPYM = CLONEM | INDEX
CREF = {c: dict(mods=COPYM if c == "ProviderError" else LOAD, alloc=c == "ProviderError", ensures=[GROWS] + (
    [ens("what existed stays as it is", "C04 C19", clone_keeps)] if c == "ProviderError" else []))
    for c in ("InvalidOperation", "NodeExists", "NodeNotFound", "ProviderError")}

contract("VirtualFileSystem.copy", COPYARGS, mods=COPYM, alloc=True,
         requires=lambda x: [("the root has the name it was made with", pre(x).f("N.name", pre(x).root(x.t("self"))) == lit(""))],
         frame="C03 C09 C19", xframe="C04", lemmas=cp_terms, keeps=True,
         covers=[("a file", lambda x: L.isfile(Cp(x).node)), ("a directory", lambda x: L.isdir(Cp(x).node)),
                 ("into a directory", lambda x: Cp(x).into), ("over a file", lambda x: Cp(x).over)],
         ensures=[
             ens("entries", "C01 C19 C03 C05", copied_entries),
             ens("copies", "C19", copied_nodes),
             ens("what existed stays as it is", "C19 C03 C05 C09", lambda x: old_same(x, *KEPT)),
             ens("never into itself", "C02 C19", lambda x: Implies(L.isdir(Cp(x).node), Not(prefix(Cp(x).cs, pre(x).path(Cp(x).D))))),
             ens("the policies allowed it", "C05", lambda x: And(
                 pre(x).writable(Cp(x).D), Implies(Cp(x).over, may_write(pre(x), Cp(x).t, FALSE)))),
             ens("the source may be read", "C06", lambda x: pre(x).readable(Cp(x).node)),
             ens("index", "C15", copied_index), GROWS],
         raises=dict(CREF, **{"?": dict(mods=COPYM, alloc=True)}), props=("C09",))
