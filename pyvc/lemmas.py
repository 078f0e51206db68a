"""Proofs of the facts about paths, lookups and parent chains that the verifier uses.

Starting point: the recursive definitions of the functions over finite segment lists (built with Nil and Snoc) and over
parent chains.  Everything else that is said about these functions - the quantified axioms of logic.py, the
consequences of the tree invariant and the update lemmas of inv.py - is proved here, each lemma from the definitions
and the lemmas before it:

  lists    for all a: P(a)               from  P(Nil)  and  P(a) => P(Snoc(a, x))
  chains   for all n: rooted(n) => P(n)  from  (parent(n) is null, or rooted(parent(n)) and P(parent(n))) => P(n)
           (rooted is the least predicate with rooted(n) <=> parent(n) is null or rooted(parent(n)))

`report()` then asks, for every axiom of logic.axioms(), whether it follows; the ones that do not are facts about
Python's strings and PurePosixPath and are listed as assumptions.
"""
import time
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, ForAll, Const, MultiPattern
from . import logic as L
from .logic import (S, Ref, SL, null, lit, Nil, Snoc, init, last, prefix, slen, norm, cat, cons2, revapp, allclean, nodots,
                    lookup, pathOf, rooted, anc, drop, nxt, clean, child, step, _fa)
from . import inv as I


class Theory:
    def __init__(self):
        self.known, self.done, self.failed, self.n = [], [], [], 0

    def query(self, hyps, goal, ms=20000):
        s = z3.SimpleSolver()
        s.set("timeout", ms)
        s.set("smt.mbqi", False)
        s.set("auto_config", False)
        for f in self.known + L.lit_axioms() + list(hyps):
            s.add(f)
        s.add(Not(goal))
        return s.check() == z3.unsat

    def c(self, nm, sort):
        self.n += 1
        return Const("%s@%d" % (nm, self.n), sort)

    def add(self, nm, ok, lemma):
        (self.done if ok else self.failed).append(nm)
        if ok and lemma is not None:
            self.known.append(lemma)

    def direct(self, nm, vs, body, *pats, hyps=()):
        cs = [self.c("c", v.sort()) for v in vs]
        ok = self.query(hyps, z3.substitute(body, *zip(vs, cs)) if vs else body)
        self.add(nm, ok, (_fa(vs, body, *pats) if pats else body) if not hyps else None)
        return ok

    def terms(self, ts, *sub):
        """Puts terms into a query (the predicate means nothing)."""
        return [z3.Function("term", t.sort(), z3.BoolSort())(z3.substitute(t, *sub)) for t in ts]

    def lists(self, nm, a, vs, body, *pats, hyps=(), keep=True, terms=()):
        """For all a and vs: body, by induction on a."""
        x, a0 = self.c("x", S), self.c("a", SL)
        cs = [(v, self.c("c", v.sort())) for v in vs]
        at = lambda t: z3.substitute(body, (a, t), *cs)
        ih = z3.substitute(body, (a, a0))
        ihp = [MultiPattern(*[z3.substitute(t, (a, a0)) for t in (p.children() if isinstance(p, z3.PatternRef) else [p])]) for p in pats]
        if vs:
            ih = ForAll(vs, ih, patterns=ihp)
        ok = self.query(list(hyps) + self.terms(terms, (a, Nil), *cs), at(Nil)) and self.query(
            list(hyps) + [ih, at(a0)] + self.terms(terms, (a, a0), *cs), at(Snoc(a0, x)))
        lemma = ForAll([a] + list(vs), body, patterns=list(pats))
        self.add(nm, ok, lemma if keep and not hyps else None)
        return lemma if ok else z3.BoolVal(True)

    def chains(self, nm, Pa, n, vs, body, *pats, hyps=(), keep=True, terms=()):
        """For all rooted n and all vs: body, by induction along the chain; Pa may be among vs."""
        cs = [(v, self.c("c", v.sort())) for v in vs]
        n0 = self.c("n", Ref)
        P0 = z3.substitute(Pa, *cs) if cs else Pa
        up = Select(P0, n0)
        at = lambda t: z3.substitute(body, (n, t), *cs)
        ih = Or(up == null, And(rooted(P0, up), at(up)))
        ok = self.query(list(hyps) + [rooted(P0, n0), ih] + self.terms(terms, (n, n0), *cs), at(n0))
        lemma = ForAll([n] + list(vs), Implies(rooted(Pa, n), body), patterns=list(pats))
        self.add(nm, ok, lemma if keep and not hyps else None)
        return lemma if ok else z3.BoolVal(True)

    def follows(self, nm, formulas, hyps=()):
        for i, f in enumerate(formulas):
            self.add("%s / %d" % (nm, i + 1), self.query(hyps, f), None)


def definitions():
    a, b = z3.Consts("a b", SL)
    x = Const("x", S)
    r, n = z3.Consts("r n", Ref)
    K, Pa, Na = Const("K", L.Kids), Const("Pa", L.PathArr), Const("Na", L.NameArr)
    up, e = Select(Pa, n), Const("e", Ref)
    return [
        _fa([a, x], And(init(Snoc(a, x)) == a, last(Snoc(a, x)) == x, Snoc(a, x) != Nil), Snoc(a, x)),
        _fa([a], Implies(a != Nil, Snoc(init(a), last(a)) == a), init(a), last(a)),
        _fa([a], prefix(a, Nil) == (a == Nil), prefix(a, Nil)),
        _fa([a, b, x], prefix(a, Snoc(b, x)) == Or(a == Snoc(b, x), prefix(a, b)), prefix(a, Snoc(b, x))),
        slen(Nil) == 0, _fa([a, x], slen(Snoc(a, x)) == slen(a) + 1, Snoc(a, x)),
        norm(Nil) == Nil, _fa([a, x], norm(Snoc(a, x)) == step(norm(a), x), norm(Snoc(a, x))),
        allclean(Nil), _fa([a, x], allclean(Snoc(a, x)) == And(allclean(a), clean(x)), allclean(Snoc(a, x))),
        nodots(Nil), _fa([a, x], nodots(Snoc(a, x)) == And(nodots(a), clean(x), x != lit("..")), nodots(Snoc(a, x))),
        _fa([a], cat(a, Nil) == a, cat(a, Nil)), _fa([a, b, x], cat(a, Snoc(b, x)) == Snoc(cat(a, b), x), cat(a, Snoc(b, x))),
        cons2(Nil) == Snoc(Nil, lit("//")), _fa([a, x], cons2(Snoc(a, x)) == Snoc(cons2(a), x), cons2(Snoc(a, x))),
        _fa([a], revapp(a, Nil) == a, revapp(a, Nil)),
        _fa([a, b, x], revapp(a, Snoc(b, x)) == revapp(Snoc(a, x), b), revapp(a, Snoc(b, x))),
        _fa([b], drop(Nil, b) == Nil, drop(Nil, b)),
        _fa([a, b, x], drop(Snoc(a, x), b) == If(Snoc(a, x) == b, Nil, Snoc(drop(a, b), x)), drop(Snoc(a, x), b)),
        _fa([a, b, x], nxt(a, Snoc(b, x)) == If(a == b, x, nxt(a, b)), nxt(a, Snoc(b, x))),
        _fa([K, r], lookup(K, r, Nil) == r, lookup(K, r, Nil)),
        _fa([K, r, a, x], lookup(K, r, Snoc(a, x)) == child(K, lookup(K, r, a), x), lookup(K, r, Snoc(a, x))),
        L.clsof(null) == 0, _fa([r], L.true_of(r), L.true_of(r)),
        _fa([Pa, n], rooted(Pa, n) == Or(up == null, rooted(Pa, up)), MultiPattern(rooted(Pa, n), up)),
        _fa([Pa, Na, n], Implies(rooted(Pa, n), pathOf(Pa, Na, n) == If(up == null, Nil, Snoc(pathOf(Pa, Na, up), Select(Na, n)))),
            MultiPattern(pathOf(Pa, Na, n), up)),
        # off the rooted chains anc is defined only as far as a node being on its own chain
        _fa([Pa, e, n], Implies(rooted(Pa, n), anc(Pa, e, n) == Or(e == n, And(up != null, anc(Pa, e, up)))), MultiPattern(anc(Pa, e, n), up)),
        _fa([Pa, n], anc(Pa, n, n), anc(Pa, n, n)),
    ]


def list_lemmas(T):
    a, b, c = z3.Consts("a b c", SL)
    x = Const("x", S)
    r = Const("r", Ref)
    K = Const("K", L.Kids)
    T.lists("prefix of nothing", a, [], prefix(Nil, a), prefix(Nil, a))
    T.lists("prefix reflexive", a, [], prefix(a, a), prefix(a, a))
    T.lists("length", a, [], slen(a) >= 0, slen(a))
    T.direct("prefix, proper", [a, b], Implies(And(prefix(a, b), a != b), b != Nil), prefix(a, b))
    T.lists("prefix of init", b, [a], Implies(And(prefix(a, b), a != b), And(b != Nil, prefix(a, init(b)))), MultiPattern(prefix(a, b), init(b)))
    T.lists("prefix, length", b, [a], Implies(prefix(a, b), slen(a) <= slen(b)), prefix(a, b))
    T.lists("prefix, same length", b, [a], Implies(And(prefix(a, b), slen(a) == slen(b)), a == b), prefix(a, b))
    T.lists("prefix transitive", c, [a, b], Implies(And(prefix(a, b), prefix(b, c)), prefix(a, c)), MultiPattern(prefix(a, b), prefix(b, c)))
    T.lists("prefixes of one list", c, [a, b], Implies(And(prefix(a, c), prefix(b, c)), Or(prefix(a, b), prefix(b, a))),
            MultiPattern(prefix(a, c), prefix(b, c)))
    T.lists("prefix of a prefix", b, [a, x], Implies(prefix(Snoc(a, x), b), prefix(a, b)), prefix(Snoc(a, x), b))
    T.lists("legal segments", a, [], Implies(nodots(a), allclean(a)), nodots(a))
    T.lists("canonical form kept", a, [], Implies(nodots(a), norm(a) == a), norm(a))
    T.direct("segments of init", [a], Implies(And(nodots(a), a != Nil), nodots(init(a))), MultiPattern(nodots(a), init(a)))
    T.lists("canonical form has no dots", a, [], Implies(allclean(a), nodots(norm(a))), norm(a))
    T.lists("segments of a prefix", b, [a], Implies(And(prefix(a, b), nodots(b)), nodots(a)), MultiPattern(prefix(a, b), nodots(b)))
    T.lists("cat, legal", b, [a], Implies(And(allclean(a), allclean(b)), allclean(cat(a, b))), cat(a, b))
    T.lists("cat, no dots", b, [a], Implies(And(nodots(a), nodots(b)), nodots(cat(a, b))), cat(a, b))
    T.lists("cat of nothing", a, [], cat(Nil, a) == a, cat(Nil, a))
    T.lists("cat, prefix", b, [a], prefix(a, cat(a, b)), cat(a, b))
    T.lists("cat, length", b, [a], slen(cat(a, b)) == slen(a) + slen(b), cat(a, b))
    T.lists("cat cancels", b, [a, c], Implies(cat(a, b) == cat(a, c), b == c), MultiPattern(cat(a, b), cat(a, c)), terms=[init(c), slen(c)])
    T.lists("cons2", a, [], cons2(a) != Nil, cons2(a))
    T.lists("drop", a, [b], Implies(prefix(b, a), cat(b, drop(a, b)) == a), drop(a, b))
    T.lists("drop, legal", a, [b], Implies(And(prefix(b, a), allclean(a)), allclean(drop(a, b))), drop(a, b))
    T.lists("next segment", b, [a], Implies(And(prefix(a, b), a != b), prefix(Snoc(a, nxt(a, b)), b)), nxt(a, b))
    l = lambda p: lookup(K, r, p)
    T.lists("lookup of prefixes", b, [K, r, a], Implies(And(prefix(a, b), l(b) != null), And(l(a) != null, Or(a == b, L.isdir(l(a))))),
            MultiPattern(prefix(a, b), l(b), l(a)))
    T.lists("lookup of the next segment", b, [K, r, a, x], Implies(And(prefix(Snoc(a, x), b), l(b) != null), child(K, l(a), x) != null),
            MultiPattern(prefix(Snoc(a, x), b), l(b), l(a)))
    T.lists("lookup from null", b, [K], lookup(K, null, b) == null, lookup(K, null, b))
    Pa, Na = Const("Pa", L.PathArr), Const("Na", L.NameArr)
    m, e = z3.Consts("m e", Ref)
    T.chains("paths of ancestors", Pa, m, [Pa, Na, e], Implies(anc(Pa, e, m), prefix(pathOf(Pa, Na, e), pathOf(Pa, Na, m))),
             MultiPattern(anc(Pa, e, m), pathOf(Pa, Na, e), pathOf(Pa, Na, m)))


class Tree:
    """Arrays of an arbitrary state."""

    def __init__(self, i=""):
        self.K, self.Pa, self.Na = Const("K" + i, L.Kids), Const("Pa" + i, L.PathArr), Const("Na" + i, L.NameArr)
        self.R, self.W, self.A = Const("R" + i, L.PathArr), Const("W" + i, L.PathArr), Const("A" + i, I.BS)


def closed(t):
    """References stored in allocated objects are allocated (a fact of the language)."""
    d, v = z3.Consts("d v", Ref)
    x = Const("x", S)
    k = Select(Select(t.K, d), x)
    return [ForAll([d, x], Implies(And(Select(t.A, d), k != null), Select(t.A, k)), patterns=[k]),
            ForAll([d], Implies(And(Select(t.A, d), Select(t.Pa, d) != null), Select(t.A, Select(t.Pa, d))), patterns=[Select(t.Pa, d)]),
            ForAll([v], Implies(Select(t.A, v), Select(t.A, Select(t.R, v))), patterns=[Select(t.R, v)])]


def tree_lemmas(T):
    n, m, a, d, v, root, r0 = z3.Consts("n m a d v root r0", Ref)
    p, r, q, dp = z3.Consts("p r q dp", SL)
    x, y = z3.Consts("x y", S)
    # consequences of the invariant
    t = Tree("1")
    hy = [f for _, f in I.invariant(t)] + closed(t)
    node = lambda o: And(Select(t.A, o), L.isnode(o))
    ax = []
    ax.append(T.chains("paths in the tree", t.Pa, n, [], Implies(node(n), nodots(pathOf(t.Pa, t.Na, n))), pathOf(t.Pa, t.Na, n), hyps=hy))
    ax.append(T.chains("ancestors exist", t.Pa, n, [a], Implies(And(node(n), anc(t.Pa, a, n)), Select(t.A, a)), anc(t.Pa, a, n), hyps=hy))
    lk = lookup(t.K, n, p)
    ax.append(T.lists("lookups in the tree", p, [n], Implies(And(node(n), lk != null), And(node(lk), rooted(t.Pa, lk),
                      pathOf(t.Pa, t.Na, lk) == cat(pathOf(t.Pa, t.Na, n), p), anc(t.Pa, n, lk))), lk, hyps=hy))
    T.follows("invariant: consequences", I.derived(t), hy + ax)

    # a parent is set
    Pa, Na = Const("Pa2", L.PathArr), Const("Na2", L.NameArr)
    Pb = Store(Pa, n, d)
    hb = [Select(Pb, n) == d, L.mark(Select(Pb, n)), L.mark(Select(Pa, n)), anc(Pa, n, n)]
    off = lambda o: Not(anc(Pa, n, o))
    kw = dict(terms=[Select(Pb, m)])
    ax = [T.chains("parent set: rooted", Pa, m, [], Implies(off(m), rooted(Pb, m)), rooted(Pb, m), hyps=hb, **kw)]
    ax.append(T.chains("parent set: paths", Pa, m, [Na], Implies(off(m), pathOf(Pb, Na, m) == pathOf(Pa, Na, m)), pathOf(Pb, Na, m), hyps=hb + ax, **kw))
    ax.append(T.chains("parent set: ancestors", Pa, m, [a], Implies(off(m), anc(Pb, a, m) == anc(Pa, a, m)), anc(Pb, a, m), hyps=hb + ax, **kw))
    ok = Or(d == null, And(rooted(Pa, d), Not(anc(Pa, n, d))))
    here = T.query(hb + ax + [ok], rooted(Pb, n))
    T.add("parent set: the node itself", here, None)
    ax.append(Implies(ok, T.chains("parent set: everything", Pa, m, [], rooted(Pb, m), rooted(Pb, m), hyps=hb + ax + [ok, rooted(Pb, n)], **kw)))
    T.follows("parent set", I.parent_store(Pa, n, d, Pb), hb + ax + [Implies(ok, rooted(Pb, n))])

    # a name is set
    Nb = Store(Na, n, x)
    Pq = Const("Pq", L.PathArr)
    ax = [T.chains("name set: paths", Pq, m, [Pq], Implies(Not(anc(Pq, n, m)), pathOf(Pq, Nb, m) == pathOf(Pq, Na, m)), pathOf(Pq, Nb, m))]
    T.follows("name set", I.name_store(None, Na, n, x, Nb), ax)

    # nodes of an earlier state whose parents and names are kept
    t0, t1 = Tree("3"), Tree("4")
    (f,) = I.kept_chains(t0, t1)
    bad, rest = f.arg(0), f.arg(1)
    fr = [c for c in z3util_vars(bad) if str(c).startswith("kept")][0]
    hy = [ForAll([fr], Not(bad), patterns=[Select(t0.Pa, fr), Select(t1.Pa, fr), Select(t0.Na, fr), Select(t1.Na, fr)])]
    old = lambda o: And(Select(t0.A, o), L.isnode(o))
    ax = [T.chains("chains kept: rooted", t0.Pa, m, [], Implies(old(m), rooted(t1.Pa, m)), rooted(t1.Pa, m), hyps=hy)]
    ax.append(T.chains("chains kept: paths", t0.Pa, m, [], Implies(old(m), pathOf(t1.Pa, t1.Na, m) == pathOf(t0.Pa, t0.Na, m)),
                       pathOf(t1.Pa, t1.Na, m), hyps=hy + ax))
    ax.append(T.chains("chains kept: ancestors", t0.Pa, m, [a], Implies(And(old(m), anc(t1.Pa, a, m)), old(a)), anc(t1.Pa, a, m), hyps=hy + ax))
    T.follows("chains kept", rest.children(), hy + ax)

    # an entry is set
    K = Const("K5", L.Kids)
    Kb = Store(K, d, Store(Select(K, d), x, v))
    at, an = Snoc(q, x), lambda k, o: lookup(k, root, o)
    inj = ForAll([r], Implies(an(K, r) == d, r == q), patterns=[an(K, r)])
    ax = [Implies(And(d != null, inj), T.lists("entry set: elsewhere", p, [], Implies(Not(prefix(at, p)), an(Kb, p) == an(K, p)), an(Kb, p),
                                               hyps=[d != null, inj]))]
    hy = [d != null, L.isdir(d), inj, an(K, q) == d]
    self_ = an(Kb, at) == v
    T.add("entry set: there", T.query(ax + hy, self_), None)
    ax.append(Implies(And(hy), self_))
    ax.append(Implies(And(hy), T.lists("entry set: below", p, [], Implies(prefix(at, p), an(Kb, p) == lookup(Kb, v, drop(p, at))), an(Kb, p), hyps=hy + ax)))
    no = ForAll([r], an(K, r) != d, patterns=[an(K, r)])
    ax.append(Implies(And(d != null, no), T.lists("entry set: not attached", p, [], an(Kb, p) == an(K, p), an(Kb, p), hyps=[d != null, no])))
    T.follows("entry set", I.kid_store(K, d, x, v, Kb, root, q), ax)
    no = ForAll([r], lookup(K, n, r) != d, patterns=[lookup(K, n, r)])
    ax = [Implies(no, T.lists("entry set: other subtrees", p, [], lookup(Kb, n, p) == lookup(K, n, p), lookup(Kb, n, p), hyps=[no]))]
    T.follows("entry set, subtree", I.subtree_store(K, d, Kb, n, Pa), ax)

    # entries are replaced
    w = Const("w5", z3.ArraySort(S, Ref))
    Kc = Store(K, d, w)
    inj = ForAll([r], Implies(an(K, r) == d, r == dp), patterns=[an(K, r)])
    below = And(prefix(dp, p), p != dp)
    hy = [d != null, root != null, inj]
    ax = [Implies(And(hy), T.lists("entries replaced: elsewhere", p, [], Implies(Not(below), an(Kc, p) == an(K, p)), an(Kc, p), hyps=hy))]
    hz = hy + [an(K, dp) == d, w == z3.K(S, null)]
    ax.append(Implies(And(hz), T.lists("entries replaced: emptied", p, [], Implies(below, an(Kc, p) == null), an(Kc, p), hyps=hz + ax)))
    no = ForAll([r], an(K, r) != d, patterns=[an(K, r)])
    ax.append(Implies(And(d != null, no), T.lists("entries replaced: not attached", p, [], an(Kc, p) == an(K, p), an(Kc, p), hyps=[d != null, no])))
    T.follows("entries replaced", I.kids_replace(K, d, Kc, root, w, dp), ax)
    pr = Or(Not(L.isdir(n)), ForAll([y], Select(Select(K, n), y) == null, patterns=[Select(Select(K, n), y)]))
    ax = [Implies(pr, T.lists("nothing below", p, [], Implies(p != Nil, lookup(K, n, p) == null), lookup(K, n, p), hyps=[pr]))]
    T.follows("nothing below", I.null_lookup(K, n), ax)


def z3util_vars(f):
    out, todo, seen = [], [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            todo += x.children()
    return out


def report():
    """Proves everything; what is proved, what is not, and which axioms are assumptions about Python's strings and paths."""
    t0 = time.time()
    T = Theory()
    T.known = definitions()
    list_lemmas(T)
    base = len(T.known)
    tree_lemmas(T)
    from . import specs
    dots_cat = specs.specs_mount.dots_cat
    T.follows("cat, no dots", [dots_cat()])
    assumed, n = [], 0
    strings = {"parse", "pstr", "joined", "scat", "blen", "strlen", "nlines"}
    for ax in L.axioms():
        syms = set()
        L.symbols(ax, syms, set())
        if syms & strings:
            assumed.append(" ".join(str(ax).split()))
            continue
        n += 1
        T.add("axiom: %s" % " ".join(str(ax).split())[:120], T.query([], ax), None)
    return dict(definitions=len(definitions()), lemmas=len(T.done), failed=T.failed, axioms_checked=n, assumed=assumed,
                seconds=round(time.time() - t0, 2))


if __name__ == "__main__":
    r = report()
    print({k: v for k, v in r.items() if k != "assumed"}, len(r["assumed"]))
    for f in r["failed"]:
        print("FAILED", f)
