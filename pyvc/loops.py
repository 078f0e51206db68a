"""Loops: exact summaries (comprehension normal form, first exit) and cuts with inferred invariants."""
import ast
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, Select, Store, ForAll
from . import logic as L
from .logic import S, Ref, Obj, null, lit, fresh
from .values import *


DEBUG = __import__("os").environ.get("VCDEBUG")


def _E():
    from . import engine
    return engine


class Unk:
    """Unknown further contents of a list."""


# ---------------------------------------------------------------- substitution in values
def subst_term(t, m):
    return z3.substitute(t, m)


def m_subst(self, st, v, m):
    if isinstance(v, Val):
        return Val(v.T, z3.substitute(v.t, m), tuple(l.subst(m) for l in v.lab))
    if isinstance(v, Tup):
        return Tup([self.subst(st, x, m) for x in v.items])
    if isinstance(v, Inst):
        i = self.nid()
        st.insts[i] = {k: self.subst(st, x, m) for k, x in st.insts[v.id].items()}
        return Inst(i, v.cls)
    if isinstance(v, SeqV):
        return SeqV([self.subst_chunk(st, c, m) for c in v.chunks], v.kind)
    if isinstance(v, Lines):
        return Lines(self.subst(st, v.s, m), v.keep)
    if isinstance(v, Kids):
        return Kids(z3.substitute(v.d, m))
    return v


def m_subst_chunk(self, st, c, m):
    if isinstance(c, Item):
        return Item(self.subst(st, c.v, m))
    if isinstance(c, SLs):
        return SLs(z3.substitute(c.t, m))
    if isinstance(c, Comp):
        s = c.src
        src = Src(s.kind, tuple(x if isinstance(x, str) else z3.substitute(x, m) for x in s.ident), s.sort,
                  lambda i: z3.substitute(s.member(i), m), None)
        idx = z3.substitute(c.idx, m)
        return Comp(src, idx if z3.is_const(idx) else c.idx,
                    [(z3.substitute(k, m), [self.subst_chunk(st, x, m) for x in ch]) for k, ch in c.alts],
                    None if c.rest is None else [z3.substitute(k, m) for k in c.rest])
    if isinstance(c, Part):
        return Part(self.subst_chunk(st, c.comp, m))
    return c


def _fresh_consts(t, base, acc):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
            try:
                if int(x.decl().name().split("!")[-1]) > base:
                    acc[x.get_id()] = x
            except ValueError:
                pass
        todo += x.children()


def m_terms_of(self, st, v, acc):
    if isinstance(v, Val):
        acc.append(v.t)
    elif isinstance(v, Tup):
        for x in v.items:
            self.terms_of(st, x, acc)
    elif isinstance(v, Inst):
        for x in st.insts[v.id].values():
            self.terms_of(st, x, acc)
    elif isinstance(v, SeqV):
        for c in v.chunks:
            self.chunk_terms(st, c, acc)
    elif isinstance(v, Lines):
        acc.append(v.s.t)
    elif isinstance(v, Kids):
        acc.append(v.d)


def m_chunk_terms(self, st, c, acc):
    if isinstance(c, Item):
        self.terms_of(st, c.v, acc)
    elif isinstance(c, SLs):
        acc.append(c.t)
    elif isinstance(c, Comp):
        acc += [i for i in c.src.ident if not isinstance(i, str)]
        for k, ch in c.alts:
            acc.append(k)
            for x in ch:
                self.chunk_terms(st, x, acc)
        acc += c.rest or []


def m_renew(self, st, c):
    """A copy of a Comp with fresh index and fresh per-iteration constants."""
    idx2 = fresh("ix", c.src.sort)
    base = int(str(c.idx).split("!")[-1])
    ts, acc = [], {}
    self.chunk_terms(st, c, ts)
    for t in ts:
        _fresh_consts(t, base, acc)
    m = [(c.idx, idx2)] + [(x, fresh("ix" if str(x).startswith("ix!") else "r", x.sort())) for x in acc.values() if not x.eq(c.idx)]
    return Comp(c.src, idx2, [(z3.substitute(k, m), [self.subst_chunk(st, x, m) for x in ch])
                              for k, ch in c.alts],
                None if c.rest is None else [z3.substitute(k, m) for k in c.rest])


def rest_of(c):
    """Conditions one of which holds of every element that contributes nothing."""
    if c.rest is not None:
        return c.rest
    ks = [k for k, _ in c.alts]
    if any(z3.is_true(k) for k in ks):
        return []
    return [Not(Or(ks))] if all(L.only_depends(k, c.idx) for k in ks) else [BoolVal(True)]


# ---------------------------------------------------------------- iterables
def m_src_comp(self, st, src):
    idx = fresh("ix", src.sort)
    s0 = st.copy()
    n = len(s0.pc)
    alts = []
    for s2, v in src.elem(s0, idx):
        alts.append((And(s2.pc[n:]) if len(s2.pc) > n else BoolVal(True), [Item(v)]))
        for i, f in s2.insts.items():
            st.insts.setdefault(i, f)
    return Comp(src, idx, alts, [])


def m_iter_chunks(self, st, v):
    E = _E()
    if isinstance(v, Tup) or isinstance(v, LSet):
        return [Item(x) for x in v.items]
    if isinstance(v, LList):
        return list(self.chunks(st, v))
    if isinstance(v, SeqV):
        return list(v.chunks)
    if isinstance(v, Lines):
        return [self.src_comp(st, self.lines_src(v))]
    if isinstance(v, Kids):
        return [self.src_comp(st, self.kids_src(st, v.d, "keys"))]
    if isinstance(v, LDict):
        d = st.dicts[v.id]
        if d.get("ref") is not None:
            return self.iter_chunks(st, d["ref"])
        items = self.ditems(st, v.id)
        d = st.dicts[v.id]
        if d["base"] is None:
            return [Item(k) for k, _ in items]
    if isinstance(v, Val) and not isinstance(v.T, str):
        if v.T[0] == "list":
            c = self.src_comp(st, self.list_src(st, v))
            if v.lab:
                c.alts = [(k, [Item(self.add_lab(x.v, v)) for x in ch]) for k, ch in c.alts]
            return [c]
        if v.T[0] == "dict":
            return [self.src_comp(st, self.dict_src(st, v, "keys"))]
        if v.T[0] == "set":
            arr = self.set_items(st, v)
            T = v.T[1]
            src = Src("set", (arr,), SORT[T], lambda x: Select(arr, x), lambda s, x: [(s, Val(T, x))])
            return [self.src_comp(st, src)]
    if isinstance(v, Val) and v.T == "obj":
        raise E.Unsupported("iterating an opaque value")
    raise E.Unsupported("iterating %r" % (v,))


def m_lines_src(self, v):
    t, lab, keep = v.s.t, v.s.lab, v.keep
    f = L.line if not keep else z3.Function("linek", S, z3.IntSort(), S)
    return Src("lines" + ("k" if keep else ""), (t,), z3.IntSort(), lambda i: And(i >= 0, i < L.nlines(t)),
               lambda s, i: [(s, Val("str", f(t, i), lab))])


def m_iterate(self, st, v):
    """[(st, chunks)]"""
    E = _E()
    if isinstance(v, Bound) and v.name == "parts":
        p = v.obj.t
        out = []
        for s, b in self.branch(st, L.anchor(p) == 0):
            if b:
                out.append((s, [SLs(L.segs(p))]))
            else:
                for s2, b2 in self.branch(s, L.anchor(p) == 1):
                    out.append((s2, [Item(E.vstr("/" if b2 else "//")), SLs(L.segs(p))]))
        return out
    return [(st, self.iter_chunks(st, v))]


def m_concrete_items(self, st, v):
    try:
        cs = self.iter_chunks(st, v)
    except _E().Unsupported:
        return None
    if all(isinstance(c, Item) for c in cs):
        return [c.v for c in cs]
    return None


def m_list_extend(self, st, l, chunks):
    st.lists[l.id] = st.lists[l.id] + list(chunks)


# ---------------------------------------------------------------- for
def m_s_For(self, s, st, fid):
    E = _E()

    def body(s2, v):
        out = []
        for o in self.assign(s.target, v, s2, fid):
            out += self.ex(s.body, o.st, fid) if o.kind == "next" else [o]
        return out
    out = []
    for s1, it in self.ev(s.iter, st, fid):
        if isinstance(it, Raise):
            out.append(E.Out(s1, "exc", it.ex))
            continue
        if isinstance(it, Gen):
            def handler(s2, v):
                res = []
                for o in body(s2, v):
                    res.append(E.Out(o.st, "next") if o.kind == "cont" else o)
                return res
            outs = it.run(s1, handler)
        else:
            outs = []
            for s2, chunks in self.iterate(s1, it):
                outs += self.run_chunks(chunks, s2, body, fid, s)
        for o in outs:
            if o.kind == "brk":
                out.append(E.Out(o.st, "next"))
            elif o.kind == "next" and s.orelse:
                out += self.ex(s.orelse, o.st, fid)
            else:
                out.append(o)
    return out


def m_run_chunks(self, chunks, st, body, fid, node):
    """Executes body for every element; outcome kinds next / brk / ret / exc / x*."""
    E = _E()
    states, done = [st], []
    for c in chunks:
        nxt = []
        for s in states:
            if isinstance(c, Item):
                outs = body(s, c.v)
            elif isinstance(c, Comp):
                outs = self.run_comp(c, s, body, fid, node)
            elif isinstance(c, SLs):
                outs = self.run_segs(c, s, body, fid, node)
            else:
                raise E.Unsupported("iterating an unknown part of a list (%s)" % type(c).__name__)
            for o in outs:
                if o.kind in ("next", "cont"):
                    nxt.append(o.st)
                else:
                    done.append(o)
        states = nxt
        if len(states) > 200:
            raise E.Unsupported("too many paths in loop")
    return done + [E.Out(s, "next") for s in states]


def snap(st):
    return {"heap": dict(st.heap), "envs": dict(st.envs), "lists": dict(st.lists), "dicts": dict(st.dicts),
            "insts": dict(st.insts), "trace": list(st.trace), "alloc": st.alloc, "pc": len(st.pc)}


class Delta:
    def __init__(self):
        self.heap, self.locals, self.lists, self.dicts, self.insts = set(), {}, {}, set(), set()
        self.alloc = self.trace = self.nonappend = False
        self.vals = {}


def diff(b, outs, kinds):
    d = Delta()
    for o in outs:
        if o.kind not in kinds:
            continue
        s = o.st
        for k, t in s.heap.items():
            if k in b["heap"]:
                if not t.eq(b["heap"][k]):
                    d.heap.add(k)
            elif not (z3.is_const(t) and t.decl().name() == k + "@0"):
                d.heap.add(k)
        for f, env in b["envs"].items():
            e2 = s.envs.get(f)
            if e2 is env or e2 is None:
                continue
            for n, v in e2.items():
                if n == "@exc":
                    continue
                if n not in env or env[n] is not v:
                    d.locals.setdefault((f, n), []).append(v)
        for i, c in b["lists"].items():
            c2 = s.lists.get(i)
            if c2 is not c and c2 is not None:
                if len(c2) == len(c) and all(x is y for x, y in zip(c2, c)):
                    continue
                ext = len(c2) >= len(c) and all(x is y for x, y in zip(c2, c))
                d.lists.setdefault(i, []).append(c2[len(c):] if ext else None)
        for i, c in b["dicts"].items():
            if s.dicts.get(i) is not c:
                d.dicts.add(i)
        for i, c in b["insts"].items():
            if s.insts.get(i) is not c:
                d.insts.add(i)
        if len(s.trace) != len(b["trace"]):
            d.trace = True
        if (s.alloc is None) != (b["alloc"] is None) or (s.alloc is not None and not s.alloc.eq(b["alloc"])):
            d.alloc = True
    return d


def join_type(vals):
    """Common type of a set of values for havoc, or None."""
    ts = []
    none = False
    for v in vals:
        if v is NONE:
            none = True
        elif isinstance(v, Val):
            ts.append(v.T)
        else:
            return None
    if not ts:
        return "none"
    T = ts[0]
    for x in ts[1:]:
        if x == T:
            continue
        if isref(T) and isref(x) and T[0] == x[0] == "ref" and {T[1], x[1]} <= {
                "VirtualNode", "VirtualFile", "VirtualDirectory"}:
            T = ("ref", "VirtualNode")
            continue
        return None
    return ("opt", T) if none else T


def m_havoc_value(self, st, vals, name):
    """[(st, V)] arbitrary value covering vals; None value when the kinds cannot be joined."""
    if all(isinstance(v, LList) for v in vals) and len({v.id for v in vals}) == 1:
        return [(st, vals[0])]
    T = join_type([v for v in vals if v is not None])
    if T is None:
        return [(st, None)]
    if T == "none":
        return [(st, NONE)]
    lab = ()
    for v in vals:
        lab = lab + tuple(getattr(v, "lab", ()) or ())
    base = T[1] if not isinstance(T, str) and T[0] == "opt" else T
    ts = [fresh("havoc_" + name, srt) for srt in flat(base)]
    v = Val(base, ts[0], tuple(dict.fromkeys(lab)))
    if not isinstance(T, str) and T[0] == "opt":
        s2 = st.copy()
        return [(s2, NONE), (st, v)]
    return [(st, v)]


def m_havoc_locals(self, st, base, changed):
    """[(st)] with the changed locals replaced by arbitrary values."""
    states = [st]
    for (f, n), vs in changed.items():
        nxt = []
        pre = base["envs"][f].get(n)
        vals = ([pre] if n in base["envs"][f] and pre is not None else []) + vs
        for s in states:
            for s2, v in self.havoc_value(s, vals, n):
                s2.set(f, n, v)
                nxt.append(s2)
        states = nxt
    return states


def m_unroll_comp(self, comp, st, body, fid, node):
    """At most self.unroll iterations, exactly; longer runs are dropped."""
    E = _E()
    src, ints = comp.src, comp.src.sort == z3.IntSort()
    cur, done, picked = [(st, ())], [], []
    for j in range(self.unroll + 1):
        nxt = []
        for s, seen in cur:
            if ints:
                f = s.copy().assume(Not(src.member(IntVal(j))))
            else:
                i = fresh("ix", src.sort)
                f = s.copy().assume(ForAll([i], Implies(src.member(i), Or([i == p for p in seen] + [BoolVal(False)]))))
            if self.feasible(f):
                done.append(E.Out(f, "next"))
            if j == self.unroll:
                continue
            c = self.renew(s, comp)
            s = s.copy().assume(src.member(c.idx))
            s.assume(c.idx == j) if ints else s.assume(*[c.idx != p for p in seen])
            some = []
            for k, ch in c.alts:
                s2 = s.copy().assume(k)
                some.append(k)
                if not self.feasible(s2):
                    continue
                for x in ch:
                    if isinstance(x, Item):
                        self.now_at(s2, x.v)
                for o in self.run_chunks(ch, s2, body, fid, node):
                    if o.kind in ("next", "cont"):
                        nxt.append((o.st, seen + (c.idx,)))
                    else:
                        done.append(o)
            s2 = s.copy().assume(Not(Or(some)))
            if self.feasible(s2):
                nxt.append((s2, seen + (c.idx,)))
        cur = nxt
    return done


def m_run_comp(self, comp, st, body, fid, node):
    E = _E()
    n0 = len(self.obls)
    try:
        return self.summarise(comp, st.copy(), body, fid, node)
    except E.NotSummarisable as ex:
        if DEBUG:
            print("   not summarised:", ex, getattr(node, "lineno", 0), flush=True)
        del self.obls[n0:]
        if self.unroll:
            return self.unroll_comp(comp, st, body, fid, node)
        comp = self.renew(st, comp)
        # which elements the loop has been at (each is visited once)
        idx = comp.idx
        key = "seen:%s" % idx
        AS = z3.ArraySort(idx.sort(), z3.BoolSort())

        def start(s):
            res = []
            for k, ch in comp.alts:
                s2 = s.copy().assume(comp.src.member(comp.idx), k, Not(Select(s.ghost[key], idx)))
                if self.feasible(s2):
                    for c in ch:
                        if isinstance(c, Item):
                            self.now_at(s2, c.v)
                    res.append((s2, ch))
            for k in rest_of(comp):
                s2 = s.copy().assume(comp.src.member(comp.idx), k, Not(Select(s.ghost[key], idx)))
                if self.feasible(s2):
                    res.append((s2, []))
            return res

        def iteration(s):
            out = []
            for s2, ch in start(s):
                out += self.run_chunks(ch, s2, body, fid, node)
            for o in out:
                o.st.ghost[key] = Store(s.ghost[key], idx, BoolVal(True))
            return out

        def finish(s):
            x = z3.Const("x", idx.sort())
            seen = s.ghost[key]
            m = z3.substitute(comp.src.member(idx), [(idx, x)])
            s.assume(L.forall_idx(x, m, Select(seen, x)))
            return [s]
        st = st.copy()
        st.ghost[key] = z3.K(idx.sort(), BoolVal(False))
        return self.cut(st, iteration, finish, None, node, seen=(key, AS, comp))


def m_now_at(self, st, v):
    """Remembers the object of each class the enclosing loop is at."""
    if isinstance(v, Tup):
        for x in v.items:
            self.now_at(st, x)
    elif isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "ref":
        st.ghost["cur:" + v.T[1]] = v.t


def m_summarise(self, comp, st, body, fid, node):
    E = _E()
    comp = self.renew(st, comp)
    b = snap(st)

    def run(prep, frozen):
        outs = []
        for s0 in prep(st.copy()):
            s0.frozen = s0.frozen | frozen
            for k, ch in comp.alts:
                s2 = s0.copy().assume(comp.src.member(comp.idx), k)
                if not self.feasible(s2):
                    continue
                outs += self.run_chunks(ch, s2, body, fid, node)
        return outs
    n0 = len(self.obls)
    outs = run(lambda s: [s], frozenset())
    all_kinds = ("next", "cont")
    d = diff(b, outs, all_kinds)
    from .specs import LOAD
    loads = bool(d.heap & LOAD)
    if loads:                   # directories get loaded on the way: arbitrary ones before each iteration
        del self.obls[n0:]
        self.havoc_load(st)
        b = snap(st)
        outs = run(lambda s: [s], frozenset())
        d = diff(b, outs, all_kinds)
        d.heap -= LOAD
    if d.heap and not loads and not d.dicts and not d.insts and not d.lists:
        # the dictionary as any earlier iterations may have left it
        n1 = len(self.obls)
        sh = st.copy()
        for k in d.heap:
            t = next(o.st.heap[k] for o in outs if k in o.st.heap)
            sh.heap[k] = fresh("before_" + k.replace(".", "_"), t.sort())
        bh = snap(sh)
        outs2 = run(lambda s: self.havoc_locals(sh.copy(), bh, d.locals), frozenset())
        d2 = diff(bh, outs2, all_kinds)
        if d2.heap == d.heap and not (d2.dicts or d2.insts or d2.lists) and set(d2.locals) <= set(d.locals):
            r = self.fill(comp, st, bh, outs2, d)
            if r is not None:
                del self.obls[n0:n1]
                return r
        del self.obls[n1:]
    if d.dicts or d.insts or d.heap and not self.only_new(b, outs, d):
        raise E.NotSummarisable("heap changes in loop")
    if any(x is None for v in d.lists.values() for x in v):
        raise E.NotSummarisable("list not only appended to")
    if d.locals or d.lists:
        del self.obls[n0:]
        frozen = frozenset(d.lists)
        for _ in range(4):
            n0 = len(self.obls)
            outs = run(lambda s: self.havoc_locals(s, b, d.locals), frozen)
            d2 = diff(b, outs, all_kinds)
            if loads:
                d2.heap -= LOAD
            if d2.heap and not self.only_new(b, outs, d2) or d2.dicts or d2.insts or any(
                    x is None for v in d2.lists.values() for x in v):
                raise E.NotSummarisable("heap changes in loop")
            grown = [k for k in d2.lists if k not in d.lists]
            vals_same = all(join_type([v for v in d2.locals[k]]) is not None for k in d2.locals if k in d.locals)
            if not grown and set(d2.locals) <= set(d.locals):
                break
            for k in d2.locals:
                d.locals.setdefault(k, []).extend(d2.locals[k])
            for k in grown:
                d.lists[k] = d2.lists[k]
            frozen = frozenset(d.lists)
            del self.obls[n0:]
        else:
            raise E.NotSummarisable("locals do not settle")
    if any(o.kind in all_kinds and o.st.alloc is not None and not o.st.alloc.eq(b["alloc"]) for o in outs):
        if loads:
            raise E.NotSummarisable("new objects in a loop that loads directories")
        return self.parallel(comp, st, b, outs, d)
    if loads:
        self.forget_load(outs, b, d)
    # contributions
    res, exits = [], []
    contrib = {i: [] for i in d.lists}
    rest = {i: rest_of(comp)[:] for i in d.lists}
    tr = []
    for o in outs:
        cond = And(o.st.pc[b["pc"]:])
        if o.kind in ("next", "cont"):
            for i in contrib:
                ch = o.st.lists[i][len(b["lists"][i]):]
                if ch:
                    contrib[i].append((cond, list(ch)))
                else:
                    rest[i].append(cond)
            ch = o.st.trace[len(b["trace"]):]
            if ch:
                tr.append((cond, list(ch)))
        else:
            exits.append((cond, o))
    for o in outs:
        for i, f in o.st.insts.items():
            st.insts.setdefault(i, f)
    comps = {i: Comp(comp.src, comp.idx, a, rest[i]) for i, a in contrib.items() if a}
    trc = Comp(comp.src, comp.idx, tr) if tr else None
    for cond, o in exits:
        s = o.st
        s.frozen = st.frozen
        for i, c in comps.items():
            cur = s.lists[i]
            nb = len(b["lists"][i])
            s.lists[i] = cur[:nb] + [Part(c)] + cur[nb:]
        if trc is not None:
            nb = len(b["trace"])
            s.trace = s.trace[:nb] + [Part(trc)] + s.trace[nb:]
        res.append(E.Out(s, o.kind, o.val))
    # normal completion
    for s in self.havoc_locals(st, b, d.locals):
        for i, c in comps.items():
            s.lists[i] = s.lists[i] + [c]
        if trc is not None:
            s.trace = s.trace + [trc]
        for cond, o in exits:
            if L.only_depends(cond, comp.idx):
                m = comp.src.member(comp.idx)
                s.assume(L.forall_idx(comp.idx, m, Not(cond)))
            # otherwise: whether an iteration leaves depends on callbacks; nothing to assume
        res.append(E.Out(s, "next"))
    return [o for o in res if o.kind != "next" or not exits or self.feasible(o.st)]


def m_fill(self, comp, st, b, outs, d):
    """A loop whose only effect is d[key] = value on one dictionary: the keys are those of some element, and the value of
    a key is the one some element with that key (the last) gave it."""
    E = _E()
    names = {k.rsplit(".", 1)[0] for k in d.heap}
    if len(names) != 1 or not all(k.rsplit(".", 1)[1].startswith(("dom", "val")) for k in d.heap):
        return None
    name = next(iter(names))
    if name + ".dom" not in d.heap:
        return None
    idx = comp.idx
    base = int(str(idx).split("!")[-1])
    ref, cases = None, [(k, None, {}) for k in rest_of(comp)]
    terms = [k for k, _, _ in cases]
    for o in outs:
        if o.kind not in ("next", "cont") or len(o.st.trace) != len(b["trace"]) or (
                o.st.alloc is not None and not o.st.alloc.eq(b["alloc"])):
            return None
        cond, key, vals = And(o.st.pc[b["pc"]:]), None, {}
        for k in d.heap:
            t, old = o.st.heap.get(k), b["heap"].get(k)
            if t is None:
                continue
            if old is None:
                old = z3.Const(k + "@0", t.sort())
            w = stores(t, old)
            if w is None or len(w) > 1:
                return None
            if not w:
                continue
            if ref is not None and not w[0][0].eq(ref):
                return None
            ref = w[0][0]
            w2 = stores(w[0][1], Select(old, ref))
            if w2 is None or len(w2) != 1 or key is not None and not w2[0][0].eq(key):
                return None
            key = w2[0][0]
            vals[k] = w2[0][1]
        if key is not None and not z3.is_true(vals.get(name + ".dom")):
            return None
        cases.append((cond, key, vals))
        terms += [cond] + list(vals.values()) + ([key] if key is not None else [])
    if ref is None:
        return None
    acc = {}
    _fresh_consts(ref, base, acc)
    if acc:
        return None
    for t in terms:
        _fresh_consts(t, base, acc)
    if any(str(c).startswith("before_") for c in acc.values()):
        return None
    m = [(c, z3.Function("sk_" + str(c), idx.sort(), c.sort())(idx)) for c in acc.values() if not c.eq(idx)]
    sub = lambda t: z3.substitute(t, m)
    cases = [(sub(c), None if k is None else sub(k), {n: sub(v) for n, v in vs.items()}) for c, k, vs in cases]
    mem = comp.src.member(idx)
    K = next(k for _, k, _ in cases if k is not None).sort()
    p = z3.Const("p", K)
    w = z3.Function(str(fresh("last", K)), K, idx.sort())
    at = lambda t: z3.substitute(t, (idx, w(p)))
    res = []
    for s in self.havoc_locals(st, b, d.locals):
        old, new = {}, {}
        for k in sorted(d.heap):
            t = next(o.st.heap[k] for o in outs if k in o.st.heap)
            old[k] = s.heap.get(k)
            if old[k] is None:
                old[k] = z3.Const(k + "@0", t.sort())
            new[k] = fresh(k.replace(".", "_"), t.sort().range())
            s.heap[k] = Store(old[k], ref, new[k])
        D = new[name + ".dom"]
        hits = [And(at(mem), at(c), at(k) == p) for c, k, _ in cases if k is not None]
        s.assume(L.forall_idx(idx, mem, Or([And(c, Select(D, k)) if k is not None else c for c, k, _ in cases])))
        dom = Select(D, p) == Or([Select(Select(old[name + ".dom"], ref), p)] + hits)
        s.assume(ForAll([p], dom, patterns=[Select(D, p)]))
        for k in new:
            if k.endswith(".dom"):
                continue
            o = Select(Select(old[k], ref), p)
            got = Or([And(h, Select(new[k], p) == at(vs.get(k, o))) for h, (_, _, vs) in zip(
                hits, [c for c in cases if c[1] is not None])] + [And(Not(Or(hits)), Select(new[k], p) == o)])
            s.assume(ForAll([p], got, patterns=[Select(new[k], p)]))
        res.append(E.Out(s, "next"))
    for o in outs:
        for i, f in o.st.insts.items():
            st.insts.setdefault(i, f)
    return res


def about_load(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith(
                ("N__loaded!", "N_pk!", "N._loaded@", "N.pk@")):
            return True
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


def m_forget_load(self, outs, b, d):
    """What an iteration contributes must not depend on which directories are loaded: conditions about that are dropped,
    and paths that differ only in them must contribute the same."""
    E = _E()
    n = b["pc"]
    ends = [o for o in outs if o.kind in ("next", "cont")]
    for o in ends:
        o.st.pc = o.st.pc[:n] + [f for f in o.st.pc[n:] if not about_load(f)]
    what = []
    for o in ends:
        ch = tuple(id(c) for i in sorted(d.lists) for c in o.st.lists[i][len(b["lists"][i]):])
        tr = tuple(id(c) for c in o.st.trace[len(b["trace"]):])
        ts = []
        for i in sorted(d.lists):
            for c in o.st.lists[i][len(b["lists"][i]):]:
                self.chunk_terms(o.st, c, ts)
        if any(about_load(t) for t in ts):
            raise E.NotSummarisable("what is collected depends on which directories are loaded")
        what.append((ch, tr))
    for i, o in enumerate(ends):
        for j in range(i):
            if what[i] != what[j] and L.check(list(self.hyps(o.st)) + ends[j].st.pc[n:], 3000)[0] != "unsat":
                raise E.NotSummarisable("what is collected depends on which directories are loaded")


def stores(t, base):
    """{ref: value} of the stores t makes on top of base, or None."""
    out = []
    while not t.eq(base):
        if not z3.is_store(t):
            return None
        a, r, v = t.children()
        if not any(r.eq(x) for x, _ in out):
            out.append((r, v))
        t = a
    return out


def m_only_new(self, b, outs, d):
    """Every iteration writes only to objects it creates itself."""
    for o in outs:
        news = stores(o.st.alloc, b["alloc"])
        if news is None:
            return False
        for k in d.heap:
            t = o.st.heap.get(k)
            base = b["heap"].get(k)
            if base is None:
                base = z3.Const(k + "@0", t.sort()) if t is not None else None
            if t is None:
                continue
            w = stores(t, base)
            if w is None or not all(any(r.eq(n) for n, _ in news) for r, _ in w):
                return False
    return True


def m_parallel(self, comp, st, b, outs, d):
    """A loop whose iterations only create objects: one set of new objects for each index."""
    E = _E()
    from .contract import closed
    idx = comp.idx
    base = int(str(idx).split("!")[-1])
    mem = comp.src.member(idx)
    changed = sorted({k for o in outs for k in o.st.heap if k not in b["heap"] or not o.st.heap[k].eq(b["heap"][k])})
    terms, acc = rest_of(comp)[:], {}
    exits, outs = [o for o in outs if o.kind not in ("next", "cont")], [o for o in outs if o.kind in ("next", "cont")]
    left = [self.left_early(st, b, o, exits + outs, changed, d) for o in exits]
    for o in outs:
        terms += o.st.pc[b["pc"]:] + [o.st.heap[k] for k in changed if k in o.st.heap]
        for i in d.lists:
            for c in o.st.lists[i][len(b["lists"][i]):]:
                if isinstance(c, Comp):
                    raise E.NotSummarisable("nested contributions")
                self.chunk_terms(o.st, c, terms)
        if len(o.st.trace) != len(b["trace"]):
            raise E.NotSummarisable("callbacks")
    for t in terms:
        _fresh_consts(t, base, acc)
    m = [(c, z3.Function("sk_" + str(c), idx.sort(), c.sort())(idx)) for c in acc.values() if not c.eq(idx)]
    sub = lambda t: z3.substitute(t, m)
    who, tag = z3.Function(str(fresh("who", Ref)), Ref, idx.sort()), z3.Function(str(fresh("tag", Ref)), Ref, z3.IntSort())
    alloc = fresh("alloc", st.alloc.sort())
    r = z3.Const("r", Ref)
    heap = {}
    for k in changed:
        t = next(o.st.heap[k] for o in outs if k in o.st.heap)
        old = b["heap"].get(k)
        if old is None:
            old = z3.Const(k + "@0", t.sort())
        heap[k] = (old, fresh(k.replace(".", "_"), t.sort()))
    cases, mine, plain = [sub(k) for k in rest_of(comp)], [], True
    contrib = {i: [] for i in d.lists}
    tags = {}
    big = sum(len(o.st.pc) - b["pc"] for o in outs) > 30
    defs = []
    for o in outs:
        cond = sub(And(o.st.pc[b["pc"]:]))
        fs = [cond]
        if big:                 # a name for "this is what happens at idx"
            cond = z3.Function(str(fresh("case", idx.sort())), idx.sort(), z3.BoolSort())(idx)
        for n, _ in stores(o.st.alloc, b["alloc"]):
            f = sub(n)
            tags.setdefault(str(n), len(tags))
            if str(n).startswith(("new_Virtual",)):
                plain = False
            fs += [Not(Select(st.alloc, f)), Select(alloc, f), who(f) == idx, tag(f) == tags[str(n)], f != null]
            mine.append((cond, f))
        for k in changed:
            if k in o.st.heap:
                for n, v in stores(o.st.heap[k], heap[k][0]):
                    fs.append(Select(heap[k][1], sub(n)) == sub(v))
        if big:
            cases.append(cond)
            defs.append(ForAll([idx], Implies(And(cond, mem), And(fs)), patterns=[cond]))
        else:
            cases.append(And(fs))
        for i in contrib:
            ch = o.st.lists[i][len(b["lists"][i]):]
            if ch:
                contrib[i].append((cond, [self.subst_chunk(o.st, c, m) for c in ch]))
        for i, f in o.st.insts.items():
            st.insts.setdefault(i, f)
    res = []
    inv0 = st.ghost.get("inv")
    from . import inv
    holds = inv0 is not None and inv0 == inv.T(self, st).ident()
    for s in self.havoc_locals(st, b, d.locals):
        s.assume(L.forall_idx(idx, mem, Or(cases)), *defs)
        s.assume(ForAll([r], Implies(Select(st.alloc, r), Select(alloc, r)), patterns=[Select(alloc, r), Select(st.alloc, r)]))
        w = [(idx, who(r))]
        s.assume(ForAll([r], Implies(And(Select(alloc, r), Not(Select(st.alloc, r))), And(
            z3.substitute(mem, w), Or([And(z3.substitute(c, w), r == z3.substitute(f, w)) for c, f in mine]))),
            patterns=[Select(alloc, r)]))
        s.assume(Not(Select(alloc, null)))
        old_alloc = st.alloc
        s.alloc = alloc
        for k, (old, new) in heap.items():
            s.assume(ForAll([r], Implies(Select(old_alloc, r), Select(new, r) == Select(old, r)), patterns=[Select(new, r)]))
            s.heap[k] = new
            closed(s, k, new)
        for i, alts in contrib.items():
            if alts:
                s.lists[i] = s.lists[i] + [Comp(comp.src, idx, alts)]
        if plain and holds and not any(k.startswith(("N.", "V.")) for k in heap):
            s.ghost["inv"] = inv.T(self, s).ident()
        res.append(E.Out(s, "next"))
    return res + left


def m_left_early(self, st, b, o, outs, changed, d):
    """The state when an iteration that creates objects leaves the loop: earlier ones have created theirs."""
    E = _E()
    from .contract import closed
    s = o.st.copy()
    s.frozen = st.frozen
    alloc, r = fresh("alloc", st.alloc.sort()), z3.Const("r", Ref)
    made = {n.get_id(): n for x in outs for n, _ in stores(x.st.alloc, b["alloc"])}
    s.assume(ForAll([r], Implies(Select(o.st.alloc, r), Select(alloc, r)), patterns=[Select(alloc, r), Select(o.st.alloc, r)]),
             Not(Select(alloc, null)),
             ForAll([r], Implies(And(Select(alloc, r), Not(Select(b["alloc"], r))), Or([L.clsof(r) == L.clsof(n) for n in made.values()]
                                                                                  + [BoolVal(False)])), patterns=[Select(alloc, r)]))
    for n in made.values():
        f = next((g for x in outs for g in x.st.pc[b["pc"]:] if z3.is_eq(g) and g.arg(0).eq(L.clsof(n))), None)
        if f is not None:
            s.assume(f)
    s.alloc = alloc
    for k in changed:
        t = next(x.st.heap[k] for x in outs if k in x.st.heap)
        old = b["heap"].get(k)
        if old is None:
            old = z3.Const(k + "@0", t.sort())
        new = fresh(k.replace(".", "_"), t.sort())
        s.assume(ForAll([r], Implies(Select(b["alloc"], r), Select(new, r) == Select(old, r)), patterns=[Select(new, r)]))
        s.heap[k] = new
        closed(s, k, new)
    for i in d.lists:
        s.lists[i] = [Unk()]
    return E.Out(s, o.kind, o.val)


# ---------------------------------------------------------------- cut loops
def m_run_segs(self, c, st, body, fid, node):
    """for part in <segments of a path>"""
    whole = c.t
    if z3.is_true(z3.simplify(L.is_Nil(whole))):
        return [_E().Out(st, "next")]

    class Seg:
        pre = None
        x = None
    g = Seg()
    from . import inv
    g.kids, g.roots = [inv.T(self, st).K], self.roots(st)
    g.whole = whole

    def iteration(s):
        x = fresh("seg", S)
        g.x = x
        s.assume(L.prefix(L.Snoc(g.pre, x), whole))
        for K in g.kids:
            for r in g.roots:
                s.assume(L.mark(L.lookup(K, r, L.Snoc(g.pre, x))))      # a term for the solver to work with
        return body(s, _E().vstr(x))

    def finish(s):
        s.assume(g.pre == whole)
        return [s]
    return self.cut(st, iteration, finish, g, node)


def m_s_While(self, s, st, fid):
    E = _E()
    n = [0]

    def test_true(s2):
        out = []
        for s3, v in self.ev(s.test, s2, fid):
            if isinstance(v, Raise):
                out.append((s3, v))
            else:
                out += [(s4, b) for s4, b in self.branch(s3, self.truth(s3, v))]
        return out

    def iteration(s2):
        out = []
        for s3, b in test_true(s2):
            if isinstance(b, Raise):
                out.append(E.Out(s3, "exc", b.ex))
            elif b:
                out += self.ex(s.body, s3, fid)
        return out

    def finish(s2):
        return [s3 for s3, b in test_true(s2) if b is False]
    outs = self.cut(st, iteration, finish, None, s)
    res = []
    for o in outs:
        if o.kind == "brk":
            res.append(E.Out(o.st, "next"))
        elif o.kind == "next" and s.orelse:
            res += self.ex(s.orelse, o.st, fid)
        else:
            res.append(o)
    return res


def m_cut(self, st, iteration, finish, g, node, seen=None):
    """Loop cut with inferred invariants.  g: segment-loop ghost or None."""
    E = _E()
    if self.unroll:
        cur, done = [(st, L.Nil)], []
        for j in range(self.unroll + 1):
            nxt = []
            for s, pre in cur:
                if g is not None:
                    g.pre = pre
                for f in finish(s.copy()):
                    if self.feasible(f):
                        done.append(E.Out(f, "next"))
                if j == self.unroll:
                    continue
                for o in iteration(s.copy()):
                    if o.kind in ("next", "cont"):
                        nxt.append((o.st, L.Snoc(pre, g.x) if g is not None else pre))
                    else:
                        done.append(o)
            cur = nxt
        return done
    b = snap(st)
    entry = st
    changed = Delta()
    n0 = len(self.obls)
    NK = ("next", "cont")

    def merge(d):
        grew = False
        for k in d.heap - changed.heap:
            changed.heap.add(k)
            grew = True
        for k, v in d.locals.items():
            if k not in changed.locals:
                changed.locals[k] = []
                grew = True
            have = {type(x).__name__ + str(getattr(x, "T", "")) for x in changed.locals[k]}
            for x in v:
                if type(x).__name__ + str(getattr(x, "T", "")) not in have:
                    changed.locals[k].append(x)
                    grew = True
        for k, v in d.lists.items():
            if k not in changed.lists:
                changed.lists[k] = []
                grew = True
            changed.lists[k] += [x for x in v]
        for a in ("dicts", "insts"):
            if getattr(d, a):
                raise E.Unsupported("loop changes a local dict or record")
        if d.alloc and not changed.alloc:
            changed.alloc = grew = True
        if d.trace and not changed.trace:
            changed.trace = grew = True
        return grew

    def havoc(s):
        s.imprecise = True
        if seen is not None:
            s.ghost[seen[0]] = fresh("havoc_seen", seen[1])
        for k in changed.heap:
            srt = s.heap[k].sort() if k in s.heap else None
            if srt is None:
                srt = changed_sorts[k]
            s.heap[k] = fresh("havoc_" + k.replace(".", "_"), srt)
        if changed.alloc:
            old = s.alloc if s.alloc is not None else z3.Const("alloc@0", z3.ArraySort(Ref, z3.BoolSort()))
            s.alloc = fresh("havoc_alloc", old.sort())
            r = z3.Const("r", Ref)
            s.assume(ForAll([r], Implies(Select(old, r), Select(s.alloc, r)), patterns=[Select(s.alloc, r)]))
            s.assume(Not(Select(s.alloc, null)))
        if changed.heap or changed.alloc:
            from . import contract
            for k in changed.heap:
                contract.closed(s, k, s.heap[k])
            contract.typed(self, s)
        for i in changed.lists:
            cs = list(s.lists[i])
            sufs = changed.lists[i]
            if all(self.str_list(x) for x in [cs] + [y for y in sufs if y is not None]):
                s.lists[i] = [SLs(fresh("havoc_list", L.SL))]
            else:
                s.lists[i] = [Unk()]
        if changed.trace:
            s.trace = list(s.trace) + [Unk()]
        return self.havoc_locals(s, b, changed.locals)
    changed_sorts = {}
    # 1. find what an iteration changes
    for rnd in range(6):
        states = [st.copy()] if rnd == 0 else havoc(st.copy())
        outs = []
        for s in states:
            if g is not None:
                g.pre = L.Nil if rnd == 0 else fresh("havoc_pre", L.SL)
            outs += iteration(s)
        del self.obls[n0:]
        for o in outs:
            for k, t in o.st.heap.items():
                changed_sorts.setdefault(k, t.sort())
        if not merge(diff(b, outs, NK)) and rnd > 0:
            break
    else:
        raise E.Unsupported("loop state does not settle")
    # 2. Houdini
    self.loop_seen = seen
    cands = self.loop_candidates(entry, changed, g, node, b) if self.loop_hints is not None else []
    from . import inv, contract
    invc = []
    if changed.alloc or any(k in inv.KEYS for k in changed.heap):
        for j in range(4):
            def part(s, g, j=j):
                t = inv.T(self, s)
                return inv.invariant(t)[j][1] if s.ghost.get("inv") != t.ident() else BoolVal(True)
            part.nm = "tree invariant %d" % j
            invc.append(part)
        cands = invc + cands

    def assume_live(s):
        if invc:
            if all(c in live for c in invc):
                contract.assume_inv(self, s)
            else:
                s.ghost["inv"] = None
    live = []
    if g is not None:
        g.pre = L.Nil
    for c in cands:
        f = c(entry, g)
        r = "none" if f is None else L.valid(self.hyps(entry), f, 1500)[0]
        if r == "unsat":
            live.append(c)
        elif DEBUG and DEBUG in getattr(c, "nm", "?"):
            for h in self.hyps(entry):
                t = " ".join(str(h).split())
                if "lookup" in t: print("H", t[:700])
            print(f)
            raise SystemExit
        elif DEBUG:
            print("   not at entry", r, getattr(c, "nm", "?"), flush=True)
    while True:
        del self.obls[n0:]
        bad, exits = set(), []
        for s in havoc(st.copy()):
            if g is not None:
                g.pre = fresh("havoc_pre", L.SL)
                pre = g.pre
            ok = True
            for i, c in enumerate(live):
                f = c(s, g)
                if f is None:
                    bad.add(i)
                else:
                    s.assume(f)
            assume_live(s)
            if not self.feasible(s):
                continue
            for o in iteration(s):
                if o.kind in NK:
                    if g is not None:
                        g.pre = L.Snoc(pre, g.x)
                    for i, c in enumerate(live):
                        if i in bad:
                            continue
                        f = c(o.st, g)
                        r = "none" if f is None else L.valid(self.hyps(o.st), f, 2500)[0]
                        if r != "unsat":
                            bad.add(i)
                            if DEBUG and DEBUG in getattr(c, "nm", "?"):
                                __import__("dbgdrop").go(L, list(self.hyps(o.st)), f)
                                raise SystemExit("dumped")
                            if DEBUG:
                                print("   drop", r, getattr(c, "nm", "?"), flush=True)
                    if g is not None:
                        g.pre = pre
                else:
                    exits.append(o)
        if DEBUG:
            print("   round: %d live, %d bad" % (len(live), len(bad)), flush=True)
        if not bad:
            break
        live = [c for i, c in enumerate(live) if i not in bad]
    self.loop_log.append((getattr(node, "lineno", 0), len(cands), [getattr(c, "nm", "?") for c in live]))
    # 3. exit
    res = list(exits)
    for s in havoc(st.copy()):
        if g is not None:
            g.pre = fresh("havoc_pre", L.SL)
        skip = False
        for c in live:
            f = c(s, g)
            if f is None:
                skip = True
                break
            s.assume(f)
        if skip:
            continue
        assume_live(s)
        for s2 in finish(s):
            if self.feasible(s2):
                res.append(E.Out(s2, "next"))
    return res


def m_str_list(self, chunks):
    for c in chunks:
        if isinstance(c, SLs):
            continue
        if isinstance(c, Item) and isinstance(c.v, Val) and c.v.T == "str" and not c.v.lab:
            continue
        if isinstance(c, Comp) and all(self.str_list(ch) for _, ch in c.alts) and False:
            continue
        return False
    return True


def m_as_sl(self, st, v):
    """Snoc-list term of a local list of strings, or None."""
    if isinstance(v, LList):
        t = L.Nil
        for c in st.lists[v.id]:
            if isinstance(c, Item) and isinstance(c.v, Val) and c.v.T == "str":
                t = L.Snoc(t, c.v.t)
            elif isinstance(c, SLs):
                t = c.t if t.eq(L.Nil) else L.cat(t, c.t)
            else:
                return None
        return t
    return None


def m_loop_candidates(self, entry, changed, g, node, b):
    cs = self.loop_hints(self, entry, changed, g, node, b)
    use = getattr(self.verifying, "use_hints", None)        # a contract may name the candidates worth trying
    return cs if use is None else [c for c in cs if getattr(c, "nm", "?").startswith(use)]
