"""Contracts: removal."""
from .specs import *
from .specs_fs import *
from .specs_ops import *
from .specs_move import *

D_, V_ = "dict<path,str>.dom", "dict<path,str>.val0"


class Rm:
    """A removal of everything at or below the canonical path cp, in terms of what is found from the root."""

    def __init__(self, a, b, vfs, cp, A0):
        self.a, self.b, self.vfs, self.cp, self.A0 = a, b, vfs, cp, A0
        self.root = a.root(vfs)
        self.p = Const("p", L.SL)
        self.l0, self.l1 = lookup(a.K, self.root, self.p), lookup(b.K, self.root, self.p)
        ix = a.f("V._full_text_index", vfs)
        self.ixd = a.f("I._files", ix)
        self.on = ix != null

    def below(self, p=None):
        p = self.p if p is None else p
        return And(prefix(self.cp, p), Or(p == self.cp, prefix(Snoc(self.cp, L.nxt(self.cp, p)), p)))

    def known(self):
        """Holds for every p; puts the segment after cp into a query."""
        return Implies(prefix(self.cp, self.p), self.below())

    def allowed(self):
        a = self.a
        return And(may_write(a, self.l0, FALSE), may_write(a, a.f("N.parent", self.l0), FALSE))

    def gone(self):
        return And(self.l0 != null, self.l1 == null)

    # between the states, whether or not the removal is complete
    def only_below(self, strictly=False):
        lo = And(prefix(self.cp, self.p), self.p != self.cp) if strictly else prefix(self.cp, self.p)
        return ForAll([self.p], Or(self.l1 == self.l0, And(self.l1 == null, lo)), patterns=[self.l1, self.l0])

    def all_allowed(self):
        return ForAll([self.p], Implies(self.l1 != self.l0, self.allowed()), patterns=[self.l1, self.l0])

    def index(self):
        a, b, q, r = self.a, self.b, Const("q", L.Path), Const("r", Ref)
        d1, d0 = b.f(D_, self.ixd), a.f(D_, self.ixd)
        k = Select(d1, P(1, self.p))
        k1, k0 = Select(d1, q), Select(d0, q)
        return [
            ("entries of removed files go", Implies(self.on, ForAll([self.p], Implies(self.known(), k == And(Select(d0, P(1, self.p)), Not(And(
                L.isfile(self.l0), self.l1 == null)))), patterns=[k]))),
            ("other entries stay", Implies(self.on, ForAll([q], Or(k1 == k0, q == P(1, segs(q))), patterns=[k1]))),
            ("texts stay", Implies(self.on, ForAll([q], Implies(k1, Select(b.f(V_, self.ixd), q) == Select(a.f(V_, self.ixd), q)),
                                                patterns=[Select(b.f(V_, self.ixd), q)]))),
            ("other dictionaries", And([ForAll([r], Implies(And(Select(self.A0, r), Or(Not(self.on), r != self.ixd)), b.f(f, r) == a.f(f, r)),
                                               patterns=[b.f(f, r)]) for f in (D_, V_)])),
        ]

    def storage(self):
        a, b = self.a, self.b
        q, r, k = Const("q", L.Path), Const("r", Ref), Const("k", S)
        dom, val = mount_of(a, self.vfs)
        ad = Select(val, q)
        inner = innermost(a, self.vfs, P(1, self.p), q)
        d1, d0 = Select(b.f("A.@dom", r), k), Select(a.f("A.@dom", r), k)
        old = Select(self.A0, r)
        same = lambda f: Select(b.f(f, r), k) == Select(a.f(f, r), k)
        gone = And(L.isfile(self.l0), self.l1 == null)
        why = z3.Exists([self.p, q], And(gone, inner, r == ad, k == relkey(self.p, q)),
                        patterns=[z3.MultiPattern(self.l1, Select(dom, q)), z3.MultiPattern(self.l0, Select(dom, q))])
        return [
            ("entries of removed files go", ForAll([self.p, q], Implies(And(self.known(), gone, inner), Not(Select(b.f("A.@dom", ad), relkey(self.p, q)))),
                                                   patterns=[z3.MultiPattern(self.l1, Select(dom, q)), z3.MultiPattern(self.l0, Select(dom, q))])),
            ("no entry is added", ForAll([r, k], Implies(And(old, d1), d0), patterns=[d1])),
            ("other entries stay", ForAll([r, k], Implies(And(old, d0, Not(d1)), why), patterns=[d1])),
            ("their texts and versions stay", ForAll([r, k], Implies(old, Or(Not(d1), And(same("A.@text"), same("A.@ver")))),
                                                     patterns=[Select(b.f(f, r), k) for f in ("A.@text", "A.@ver")])),
        ]


def rm_of(x):
    v = x.t("self")
    return Rm(pre(x), post(x), v, pre(x).canon(v, x["path"]), x.pre.alloc)


def removed(x):
    m = rm_of(x)
    return [("there was a node, and not the root", And(lookup(m.a.K, m.root, m.cp) != null, m.cp != Nil)),
            ("everything at or below the path goes and nothing else", ForAll([m.p], m.l1 == If(prefix(m.cp, m.p), null, m.l0), patterns=[m.l1])),
            ("only an empty directory unless recursive", Or(x.t("recursive"), ForAll([m.p], Implies(And(m.below(), m.p != m.cp), m.l0 == null),
                                                                                     patterns=[m.l0])))]


def removal_allowed(x):
    m = rm_of(x)
    return ForAll([m.p], Implies(And(m.below(), m.l0 != null), m.allowed()), patterns=[m.l0])


def rm_setup(x):
    x.eng.rm_pre = x.pre.copy()


def rm_hints(eng, entry, changed, g, node, b):
    out = []
    a0 = H(eng, eng.rm_pre)
    vfs = eng.args["self"].t
    cp = a0.canon(vfs, eng.args["path"])
    seen = eng.loop_seen

    def c(nm, fn):
        fn.nm = nm
        out.append(fn)
    mk = lambda st: Rm(a0, H(eng, st), vfs, cp, eng.rm_pre.alloc)
    c("only what lies below goes", lambda st, g: mk(st).only_below(True))
    c("what went could be removed", lambda st, g: mk(st).all_allowed())
    for part in ("index", "storage"):
        for j in range(4):
            c("%s %d" % (part, j), lambda st, g, j=j, part=part: getattr(mk(st), part)()[j][1])
    if seen is not None and seen[1].domain() == S:
        s = Const("s", S)

        def so_far(st, g):
            l = lookup(H(eng, st).K, a0.root(vfs), Snoc(cp, s))
            return ForAll([s], Implies(Select(st.ghost[seen[0]], s), l == null), patterns=[Select(st.ghost[seen[0]], s), l])
        c("the visited entries are gone", so_far)
    return out


RMM = LOAD | INDEX | STORE | {"N.kids"}
PART = [ens("only what lies at or below the path goes", "C05", lambda x: rm_of(x).only_below()),
        ens("what went could be removed", "C05", lambda x: rm_of(x).all_allowed()), GROWS]
NOTREC = ens("nothing goes unless recursive", "C04", lambda x: Or(x.t("recursive"), And(same_tree(x), old_same_keys(x))))


def old_same_keys(x):
    r = Const("r", Ref)
    return And([ForAll([r], Implies(Select(x.pre.alloc, r), post(x).f(k, r) == pre(x).f(k, r)), patterns=[post(x).f(k, r)])
                for k in sorted(INDEX | STORE)])


STAYS = [ens("index", "C15", lambda x: rm_of(x).index()), ens("storage", "C11", lambda x: rm_of(x).storage())]

contract("VirtualFileSystem.remove", [("self", VFS), ("path", PATHARG), ("recursive", "bool")], mods=RMM, frame="C05 C09", xframe="C04",
         setup=rm_setup, hints=rm_hints, recursive=True, trace_check=False,
         lemmas=lambda x: [L.mark(h.at(x.t("self"), p)) for h in (pre(x), post(x)) for p in (rm_of(x).cp, L.init(rm_of(x).cp))],
         covers=[("a file", lambda x: L.isfile(target0(x))), ("a directory", lambda x: And(L.isdir(target0(x)), x.t("recursive")))],
         ensures=[ens("the node and all below it", "C02 C05", removed),
                  ens("the policies allowed it", "C05", removal_allowed)] + STAYS + [GROWS],
         raises=dict({c: dict(mods=RMM, ensures=PART + STAYS + [NOTREC])
                      for c in ("InvalidOperation", "NodeNotFound", "ProviderError")}, **{"?": dict(mods=RMM, ensures=PART[:2])}), props=("C09",))
