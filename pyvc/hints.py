"""Loop invariant candidates.  They are generated from the kinds of the values a loop changes, never from names
or positions in the source, and only those that are inductive are kept (Houdini), so they cannot make a proof
unsound and survive rewrites of the loop."""
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, Select, Store, ForAll, Const
from . import logic as L
from . import inv
from . import contract
from .logic import S, Ref, SL, null, lit, Nil, Snoc, prefix, lookup, pathOf, rooted, anc, norm
from .values import *

TRUE = BoolVal(True)


def cand(nm, fn):
    fn.nm = nm
    return fn


def is_node(v):
    return isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "ref" and v.T[1] in (
        "VirtualNode", "VirtualFile", "VirtualDirectory")


def generic(eng, entry, changed, g, node, b):
    out = []
    t0 = inv.T(eng, entry)
    A0 = entry.alloc
    roots = eng.roots(entry)
    args = eng.arg_nodes

    def loc(st, f, n):
        return st.envs[f].get(n)

    nodes = [k for k, vs in changed.locals.items() if any(is_node(v) for v in vs + [entry.envs[k[0]].get(k[1])])]
    paths = [k for k, vs in changed.locals.items()
             if any(isinstance(v, Val) and v.T == "path" for v in vs + [entry.envs[k[0]].get(k[1])])]
    lists = list(changed.lists)

    for k in nodes:
        def ok(st, g, k=k):
            v = loc(st, *k)
            return TRUE if v is NONE else And(v.t != null, Select(st.alloc, v.t), L.isnode(v.t)) if is_node(v) else None
        out.append(cand("%s is a node" % k[1], ok))

        def isd(st, g, k=k):
            v = loc(st, *k)
            return TRUE if v is NONE else L.isdir(v.t) if is_node(v) else None
        out.append(cand("%s is a directory" % k[1], isd))
        if g is not None:
            for r in roots:
                def at(st, g, k=k, r=r):
                    v = loc(st, *k)
                    return v.t == lookup(inv.T(eng, st).K, r, g.pre) if is_node(v) else None
                out.append(cand("%s is at the processed prefix" % k[1], at))
        for l in lists:
            for a in args:
                def rv(st, g, k=k, l=l, a=a):
                    v = loc(st, *k)
                    s = eng.as_sl(st, LList(l))
                    if s is None or not (v is NONE or is_node(v)):
                        return None
                    t = inv.T(eng, st)
                    return L.revapp(Nil if v is NONE else pathOf(t.Pa, t.Na, v.t), s) == pathOf(t.Pa, t.Na, a)
                out.append(cand("path of %s, then the collected names reversed, is the path" % k[1], rv))
    if g is not None:
        for l in lists:
            def nm(st, g, l=l):
                s = eng.as_sl(st, LList(l))
                return None if s is None else s == norm(g.pre)
            out.append(cand("list is the canonical form of the prefix", nm))

            def nm2(st, g, l=l):
                s = eng.as_sl(st, LList(l))
                return None if s is None else Or(s == norm(g.pre), s == L.cons2(norm(g.pre)))
            out.append(cand("list is the canonical form of the prefix, possibly after '//'", nm2))

            def same(st, g, l=l):
                s = eng.as_sl(st, LList(l))
                return None if s is None else s == g.pre
            out.append(cand("list is the prefix", same))
        out.append(cand("prefix", lambda st, g: prefix(g.pre, g.whole)))
    # paths walked upwards
    for k in paths:
        v0 = entry.envs[k[0]].get(k[1])
        for k2 in paths:
            w0 = entry.envs[k2[0]].get(k2[1])
            if not (isinstance(w0, Val) and w0.T == "path"):
                continue

            def up(st, g, k=k, w0=w0):
                v = loc(st, *k)
                if v is NONE:
                    return TRUE
                if not (isinstance(v, Val) and v.T == "path"):
                    return None
                return And(L.anchor(v.t) == L.anchor(w0.t), prefix(L.segs(v.t), L.segs(w0.t)))
            out.append(cand("%s is a prefix of the start" % k[1], up))
            if k2 != k:
                def par(st, g, k=k, k2=k2, w0=w0):
                    v, w = loc(st, *k), loc(st, *k2)
                    if not (isinstance(w, Val) and w.T == "path"):
                        return None
                    if v is NONE:
                        return w.t == w0.t
                    if not (isinstance(v, Val) and v.T == "path"):
                        return None
                    return And(L.is_Snoc(L.segs(v.t)), L.init(L.segs(v.t)) == L.segs(w.t))
                out.append(cand("%s is the child of %s" % (k[1], k2[1]), par))
        for r in roots:
            def missing(st, g, k=k, r=r):
                v = loc(st, *k)
                if v is NONE:
                    return TRUE
                if not (isinstance(v, Val) and v.T == "path"):
                    return None
                return lookup(inv.T(eng, st).K, r, L.segs(v.t)) == null
            out.append(cand("nothing exists at %s" % k[1], missing))
    if "N._loaded" in changed.heap and not (eng.verifying.alloc == "any" and "N._loaded" in eng.verifying.mods):
        def grows(st, g):
            a = eng.harr(st, "N._loaded", z3.BoolSort())
            o = eng.harr(entry, "N._loaded", z3.BoolSort())
            r = Const("r", Ref)
            return ForAll([r], Implies(Select(o, r), Select(a, r)), patterns=[Select(a, r)])
        out.append(cand("directories stay loaded", grows))
        for k in nodes:
            def upl(st, g, k=k):
                v = loc(st, *k)
                if not is_node(v):
                    return None
                up = Select(inv.T(eng, st).Pa, v.t)
                return Or(up == null, Select(eng.harr(st, "N._loaded", z3.BoolSort()), up))
            out.append(cand("the parent of %s is loaded" % k[1], upl))
    # heap
    from .contract import key_sort
    free = eng.verifying.mods if eng.verifying.alloc == "any" else ()      # nothing is claimed about these
    for key in sorted(changed.heap):
        if key == "N.kids" or "<" in key or key in free:
            continue

        def frame(st, g, key=key):
            a = eng.harr(st, key, key_sort(eng, key))
            o = eng.harr(entry, key, key_sort(eng, key))
            r = Const("r", Ref)
            return ForAll([r], Implies(Select(A0, r), Select(a, r) == Select(o, r)), patterns=[Select(a, r)])
        out.append(cand("frame %s" % key, frame))
    for key in sorted(changed.heap):
        if "<" in key and key not in free:
            def cframe(st, g, key=key):
                if key not in st.heap:
                    return TRUE
                a = st.heap[key]
                o = entry.heap.get(key)
                if o is None:
                    o = Const(key + "@0", a.sort())
                r = Const("r", Ref)
                b = Implies(Select(A0, r), Select(a, r) == Select(o, r))
                try:
                    return ForAll([r], b, patterns=[Select(a, r)])
                except z3.Z3Exception:          # a is an array literal
                    return ForAll([r], b, patterns=[Select(A0, r)])
            out.append(cand("frame %s" % key, cframe))
    if "N.kids" in changed.heap and "N.kids" not in free:
        d, x, y = Const("d", Ref), Const("x", S), Const("y", S)
        p = Const("p", SL)

        def added(st, g):
            K = inv.T(eng, st).K
            k, k0 = Select(Select(K, d), x), Select(Select(t0.K, d), x)
            return ForAll([d, x], Implies(Select(A0, d), Or(k == k0, And(k0 == null, Not(Select(A0, k))))), patterns=[k])
        out.append(cand("entries are only added, and new", added))

        def gain(st, g):
            K = inv.T(eng, st).K
            k, k0 = Select(Select(K, d), x), Select(Select(t0.K, d), x)
            return ForAll([d, x], Implies(And(Select(A0, d), k != k0), Select(eng.harr(st, "N._loaded", z3.BoolSort()), d)), patterns=[k])
        out.append(cand("directories that gained an entry are loaded", gain))
        for f, env in b["envs"].items():
            for nm, v in env.items():
                if (f, nm) in changed.locals or not (isinstance(v, Val) and v.T == "bool"):
                    continue
                for pos in (True, False):
                    def guarded(st, g, v=v, pos=pos):
                        K = inv.T(eng, st).K
                        k, k0 = Select(Select(K, d), x), Select(Select(t0.K, d), x)
                        return Implies(v.t if pos else Not(v.t),
                                       ForAll([d, x], Implies(Select(A0, d), k == k0), patterns=[k]))
                    out.append(cand("no entry is added when %s is %s" % (nm, pos), guarded))

                    def gal(st, g, v=v, pos=pos):
                        r = Const("r", Ref)
                        return Implies(v.t if pos else Not(v.t), ForAll([r], Implies(Select(st.alloc, r), Select(A0, r)),
                                                                       patterns=[Select(st.alloc, r)]))
                    if changed.alloc:
                        out.append(cand("nothing is made when %s is %s" % (nm, pos), gal))
                    for r in roots:
                        def gl(st, g, v=v, pos=pos, r=r):
                            lk = lookup(inv.T(eng, st).K, r, p)
                            return Implies(v.t if pos else Not(v.t), ForAll([p], lk == lookup(t0.K, r, p), patterns=[lk]))
                        out.append(cand("the tree is unchanged when %s is %s" % (nm, pos), gl))
        if g is not None:
            for r in roots:
                def onpath(st, g, r=r):
                    t = inv.T(eng, st)
                    k, k0 = Select(Select(t.K, d), x), Select(Select(t0.K, d), x)
                    pd = pathOf(t0.Pa, t0.Na, d)
                    return ForAll([d, x], Implies(And(Select(A0, d), k != k0), And(
                        d == lookup(t0.K, r, pd), prefix(Snoc(pd, x), g.pre))), patterns=[k])
                out.append(cand("entries are added on the way to the path", onpath))
        for kk in nodes:
            def none_yet(st, g, kk=kk):
                v = loc(st, *kk)
                if not is_node(v):
                    return None
                K = inv.T(eng, st).K
                k, k0 = Select(Select(K, d), x), Select(Select(t0.K, d), x)
                return Implies(Select(A0, v.t), ForAll([d, x], Implies(Select(A0, d), k == k0), patterns=[k]))
            out.append(cand("nothing was added while %s existed before" % kk[1], none_yet))
            for r in roots:
                def nl(st, g, kk=kk, r=r):
                    v = loc(st, *kk)
                    if not is_node(v):
                        return None
                    lk = lookup(inv.T(eng, st).K, r, p)
                    return Implies(Select(A0, v.t), ForAll([p], lk == lookup(t0.K, r, p), patterns=[lk]))
                out.append(cand("the tree is unchanged while %s existed before" % kk[1], nl))

            def fresh_empty(st, g, kk=kk):
                v = loc(st, *kk)
                if not is_node(v):
                    return None
                K = inv.T(eng, st).K
                return Or(Select(A0, v.t), ForAll([y], Select(Select(K, v.t), y) == null,
                                                  patterns=[Select(Select(K, v.t), y)]))
            out.append(cand("%s is empty when new" % kk[1], fresh_empty))
        if g is not None:
            for r in roots:
                def grown(st, g, r=r):
                    K = inv.T(eng, st).K
                    lk, l0 = lookup(K, r, p), lookup(t0.K, r, p)
                    return ForAll([p], Or(lk == l0, And(l0 == null, Not(Select(A0, lk)), lk != null, prefix(p, g.pre))),
                                  patterns=[lk])
                out.append(cand("only prefixes of the path were added", grown))
    if changed.alloc and not free:
        for cname in list(L.CLS):
            def nocls(st, g, cname=cname):
                r = Const("r", Ref)
                return ForAll([r], Implies(And(Select(st.alloc, r), Not(Select(A0, r))), L.clsof(r) != L.cls_id(cname)),
                              patterns=[Select(st.alloc, r)])
            if cname not in contract.NEWNODES:
                out.append(cand("no new %s" % cname, nocls))
        own = eng.verifying.alloc
        for al in (contract.NEWNODES, contract.NEWNODES + ("StorageEntry",)) + ((own,) if isinstance(own, tuple) else ()):
            out.append(cand("kinds of new objects", lambda st, g, al=al: contract.new_kinds(A0, st.alloc, al)))
    if changed.alloc and not free and "N.version" in changed.heap:
        from . import specs
        for j in range(len(specs.initial_parts(specs.H(eng, entry), A0, null))):
            def init_(st, g, j=j):
                n = Const("n", Ref)
                return ForAll([n], Implies(And(Select(st.alloc, n), Not(Select(A0, n)), L.isnode(n)),
                                           specs.initial_parts(specs.H(eng, st), A0, n)[j]), patterns=[Select(st.alloc, n)])
            out.append(cand("new nodes are in their initial state %d" % j, init_))
    skip = tuple(eng.verifying.nohints)
    if skip:
        out = [c for c in out if not c.nm.startswith(skip)]
    # fresh objects satisfy what the contract wants of new nodes
    for c in eng.extra_hints(entry, changed, g, node, b):
        out.append(c)
    return out
