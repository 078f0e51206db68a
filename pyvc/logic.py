"""Sorts, axioms and the solver front end of the verifier.

Strings are an uninterpreted sort with pairwise distinct constants for the literals that
occur; sequences of path segments are a snoc-list datatype; nodes are references into a
heap of per-field arrays.
"""
import time
import z3
from z3 import (And, Or, Not, Implies, If, ForAll, Exists, BoolVal, IntVal, Const, Function,
                Select, Store, IntSort, BoolSort, RealSort, ArraySort, DeclareSort, MultiPattern)

S = DeclareSort("Str")
Ref = DeclareSort("Ref")
Obj = DeclareSort("Obj")
SL = DeclareSort("SL")                            # finite lists of strings, built at the end
Nil = Const("Nil", SL)
Snoc = Function("Snoc", SL, S, SL)
init = Function("init", SL, SL)
last = Function("last", SL, S)
def is_Nil(a):
    return a == Nil
def is_Snoc(a):
    return a != Nil
_P = z3.Datatype("Path")
_P.declare("P", ("anchor", IntSort()), ("segs", SL))
Path = _P.create()
P, anchor, segs = Path.P, Path.anchor, Path.segs

null = Const("null", Ref)
absent = Const("absent", Obj)
Kids = ArraySort(Ref, ArraySort(S, Ref))

clean = Function("clean", S, BoolSort())
prefix = Function("prefix", SL, SL, BoolSort())
slen = Function("slen", SL, IntSort())
norm = Function("norm", SL, SL)                   # lexical canonical form of a segment list
cat = Function("cat", SL, SL, SL)
cons2 = Function("cons2", SL, SL)                 # '//' :: l
revapp = Function("revapp", SL, SL, SL)
allclean = Function("allclean", SL, BoolSort())   # every segment is a legal path segment
nodots = Function("nodots", SL, BoolSort())       # ... and none is '..'
PathArr = ArraySort(Ref, Ref)
NameArr = ArraySort(Ref, S)
pathOf = Function("pathOf", PathArr, NameArr, Ref, SL)
lookup = Function("lookup", Kids, Ref, SL, Ref)   # kids, root, path
rooted = Function("rooted", PathArr, Ref, BoolSort())    # the parent chain ends
anc = Function("anc", PathArr, Ref, Ref, BoolSort())     # anc(Pa, a, m): a is m or on m's parent chain
true_of = Function("true_of", Ref, BoolSort())    # true everywhere: puts a term into the negation of a goal
mark = Function("mark", Ref, BoolSort())          # no meaning: keeps a term in a query
clsof = Function("clsof", Ref, IntSort())
scat = Function("scat", S, S, S)
pstr = Function("pstr", Path, S)
parse = Function("parse", S, Path)
istr = Function("istr", IntSort(), S)
ostr = Function("ostr", Obj, S)
blen = Function("blen", S, IntSort())
strlen = Function("strlen", S, IntSort())

contains = Function("contains", S, S, BoolSort())
startswith = Function("startswith", S, S, BoolSort())
endswith = Function("endswith", S, S, BoolSort())
lower = Function("lower", S, S)
nlines = Function("nlines", S, IntSort())
line = Function("line", S, IntSort(), S)
joined = Function("joined", S, SL, S)
hjoin = Function("hjoin", Obj, Obj, Obj)
nxt = Function("nxt", SL, SL, S)                   # nxt(a, b): the segment of b after its proper prefix a
drop = Function("drop", SL, SL, SL)               # drop(a, b): a without its prefix b
_ba, _bb = z3.Bools("_ba _bb")
AND_DECL = And(_ba, _bb).decl()

CLS = {}
def cls_id(name):
    if name not in CLS:
        CLS[name] = len(CLS) + 1
    return CLS[name]
for _n in ("VirtualFile", "VirtualDirectory", "NodePolicy"):
    cls_id(_n)

def isdir(r):
    return clsof(r) == cls_id("VirtualDirectory")
def isfile(r):
    return clsof(r) == cls_id("VirtualFile")
def isnode(r):
    return Or(isdir(r), isfile(r))

_lits = {}
_lit_id = Function("lit_id", S, IntSort())
def lit(s):
    if s not in _lits:
        _lits[s] = (len(_lits) + 1, Const("lit%d" % (len(_lits) + 1), S))
    return _lits[s][1]
for _s in ("", ".", "..", "/", "//"):
    lit(_s)
_lit_ax = []
def lit_axioms():
    out = _lit_ax
    for s, (i, c) in list(_lits.items())[len(out) // 4:]:
        out.append(_lit_id(c) == i)
        ok = s not in ("", ".") and "/" not in s
        out.append(clean(c) if ok else Not(clean(c)))
        out.append(blen(c) == len(s.encode("utf-8", "surrogatepass")))
        out.append(strlen(c) == len(s))
    return out

_n = [0]
def fresh(prefix_, sort):
    _n[0] += 1
    return z3.Const("%s!%d" % (prefix_, _n[0]), sort)

def _fa(vs, body, *pats):
    return ForAll(vs, body, patterns=list(pats), qid=str(pats[0]).replace(" ", "").replace("\n", "").replace("(", "<").replace(")", ">").replace(",", "_")[:60])

def axioms():
    a, b, c = z3.Consts("a b c", SL)
    x = Const("x", S)
    y = Const("y", S)
    p = Const("p", Path)
    r, d = z3.Consts("r d", Ref)
    K = Const("K", Kids)
    ax = [
        _fa([a, x], And(init(Snoc(a, x)) == a, last(Snoc(a, x)) == x, Snoc(a, x) != Nil), Snoc(a, x)),
        _fa([a], Implies(a != Nil, Snoc(init(a), last(a)) == a), init(a), last(a)),
        _fa([a, b], Implies(And(prefix(a, b), a != b), b != Nil), prefix(a, b)),
        # prefix order on segment lists
        _fa([a], prefix(Nil, a), prefix(Nil, a)),
        _fa([a], prefix(a, a), prefix(a, a)),
        _fa([a], Implies(prefix(a, Nil), a == Nil), prefix(a, Nil)),
        _fa([a, b, x], prefix(a, Snoc(b, x)) == Or(a == Snoc(b, x), prefix(a, b)), prefix(a, Snoc(b, x))),
        _fa([a, b], Implies(And(prefix(a, b), a != b), And(is_Snoc(b), prefix(a, init(b)))), MultiPattern(prefix(a, b), init(b))),
        _fa([a, b], Implies(prefix(a, b), slen(a) <= slen(b)), prefix(a, b)),
        _fa([a, b], Implies(And(prefix(a, b), slen(a) == slen(b)), a == b), prefix(a, b)),
        _fa([a, b, c], Implies(And(prefix(a, b), prefix(b, c)), prefix(a, c)), MultiPattern(prefix(a, b), prefix(b, c))),
        _fa([a, b, c], Implies(And(prefix(a, c), prefix(b, c)), Or(prefix(a, b), prefix(b, a))), MultiPattern(prefix(a, c), prefix(b, c))),
        _fa([a, b, x], Implies(prefix(Snoc(a, x), b), prefix(a, b)), prefix(Snoc(a, x), b)),
        slen(Nil) == 0,
        _fa([a, x], slen(Snoc(a, x)) == slen(a) + 1, Snoc(a, x)),
        _fa([a], slen(a) >= 0, slen(a)),
        # canonical form
        norm(Nil) == Nil,
        _fa([a, x], norm(Snoc(a, x)) == step(norm(a), x), norm(Snoc(a, x))),
        _fa([a], Implies(nodots(a), norm(a) == a), norm(a)),
        _fa([a], Implies(allclean(a), nodots(norm(a))), norm(a)),
        # legal segments
        allclean(Nil), nodots(Nil),
        _fa([a, x], allclean(Snoc(a, x)) == And(allclean(a), clean(x)), allclean(Snoc(a, x))),
        _fa([a, x], nodots(Snoc(a, x)) == And(nodots(a), clean(x), x != lit("..")), nodots(Snoc(a, x))),
        _fa([a], Implies(nodots(a), allclean(a)), nodots(a)),
        _fa([a, b], Implies(And(allclean(a), allclean(b)), allclean(cat(a, b))), cat(a, b)),
        _fa([a, b], Implies(And(prefix(a, b), nodots(b)), nodots(a)), MultiPattern(prefix(a, b), nodots(b))),
        # concatenation, '//'-cons, reversal
        _fa([a], cat(a, Nil) == a, cat(a, Nil)),
        _fa([a], cat(Nil, a) == a, cat(Nil, a)),
        _fa([a, b, x], cat(a, Snoc(b, x)) == Snoc(cat(a, b), x), cat(a, Snoc(b, x))),
        cons2(Nil) == Snoc(Nil, lit("//")),
        _fa([a, x], cons2(Snoc(a, x)) == Snoc(cons2(a), x), cons2(Snoc(a, x))),
        _fa([a], Implies(is_Nil(a), cons2(a) == Snoc(Nil, lit("//"))), cons2(a)),
        _fa([a], is_Snoc(cons2(a)), cons2(a)),
        _fa([a], Implies(is_Snoc(a), cons2(a) == Snoc(cons2(init(a)), last(a))), MultiPattern(cons2(a), init(a))),
        _fa([a], revapp(a, Nil) == a, revapp(a, Nil)),
        _fa([a, b, x], revapp(a, Snoc(b, x)) == revapp(Snoc(a, x), b), revapp(a, Snoc(b, x))),
        _fa([a, b], Implies(prefix(b, a), cat(b, drop(a, b)) == a), drop(a, b)),
        _fa([a, b], Implies(And(prefix(b, a), allclean(a)), allclean(drop(a, b))), drop(a, b)),
        _fa([a, b], prefix(a, cat(a, b)), cat(a, b)),
        _fa([a, b, c], Implies(And(cat(a, b) == cat(a, c)), b == c), MultiPattern(cat(a, b), cat(a, c))),
        # strings and paths
        _fa([a], Implies(And(allclean(a), is_Snoc(a)), parse(scat(lit("/"), joined(lit("/"), a))) == P(1, a)),
            scat(lit("/"), joined(lit("/"), a))),
        _fa([a], Implies(allclean(a), parse(scat(lit("/"), joined(lit("/"), cons2(a)))) == P(1, a)), joined(lit("/"), cons2(a))),
        _fa([a], Implies(And(is_Snoc(a), allclean(init(a)), last(a) == lit("//"), init(a) == Nil), a == cons2(Nil)), joined(lit("/"), a)),
        joined(lit("/"), Nil) == lit(""),
        _fa([x], nlines(x) >= 0, nlines(x)),
        _fa([p], Implies(And(allclean(segs(p)), anchor(p) >= 0, anchor(p) <= 2), parse(pstr(p)) == p), pstr(p)),
        _fa([x], Implies(clean(x), parse(x) == P(0, Snoc(Nil, x))), parse(x)),
        _fa([x], And(allclean(segs(parse(x))), anchor(parse(x)) >= 0, anchor(parse(x)) <= 2), parse(x)),
        parse(lit("/")) == P(1, Nil), pstr(P(1, Nil)) == lit("/"),
        parse(lit("")) == P(0, Nil),
        _fa([p], pstr(p) != lit(""), pstr(p)),
        _fa([x], blen(x) >= 0, blen(x)),
        _fa([x], strlen(x) >= 0, strlen(x)),
        _fa([x], scat(x, lit("")) == x, scat(x, lit(""))),
        _fa([x], scat(lit(""), x) == x, scat(lit(""), x)),
        # resolution
        _fa([K, r], lookup(K, r, Nil) == r, lookup(K, r, Nil)),
        _fa([K, r, a, x], lookup(K, r, Snoc(a, x)) == child(K, lookup(K, r, a), x), lookup(K, r, Snoc(a, x))),
        _fa([K, r, a, b], Implies(And(prefix(a, b), lookup(K, r, b) != null), And(lookup(K, r, a) != null, Or(a == b, isdir(lookup(K, r, a))))),
            MultiPattern(prefix(a, b), lookup(K, r, b), lookup(K, r, a))),
        _fa([K, r, a, b, x], Implies(And(prefix(Snoc(a, x), b), lookup(K, r, b) != null), child(K, lookup(K, r, a), x) != null),
            MultiPattern(prefix(Snoc(a, x), b), lookup(K, r, b), lookup(K, r, a))),
        clsof(null) == 0,
        _fa([r], true_of(r), true_of(r)),
        _fa([a, b], Implies(And(prefix(a, b), a != b), prefix(Snoc(a, nxt(a, b)), b)), nxt(a, b)),
    ] + parent_axioms()
    return ax

def parent_axioms():
    Pa, Na = Const("Pa", PathArr), Const("Na", NameArr)
    n, m, a = z3.Consts("n m a", Ref)
    up = Select(Pa, n)
    return [
        _fa([Pa, n], Implies(And(rooted(Pa, n), up != null), rooted(Pa, up)), MultiPattern(rooted(Pa, n), up)),
        _fa([Pa, n], Implies(up == null, rooted(Pa, n)), MultiPattern(rooted(Pa, n), up)),
        _fa([Pa, Na, n], Implies(rooted(Pa, n), pathOf(Pa, Na, n) ==
                                 If(up == null, Nil, Snoc(pathOf(Pa, Na, up), Select(Na, n)))),
            MultiPattern(pathOf(Pa, Na, n), up)),
        _fa([Pa, a, n], Implies(rooted(Pa, n), anc(Pa, a, n) == Or(a == n, And(up != null, anc(Pa, a, up)))),
            MultiPattern(anc(Pa, a, n), up)),
        _fa([Pa, n], anc(Pa, n, n), anc(Pa, n, n)),
        # by induction over the parent chain (lemmas.py)
        _fa([Pa, Na, a, m], Implies(And(rooted(Pa, m), anc(Pa, a, m)), prefix(pathOf(Pa, Na, a), pathOf(Pa, Na, m))),
            MultiPattern(anc(Pa, a, m), pathOf(Pa, Na, a), pathOf(Pa, Na, m))),
    ]


def step(l, x):
    return If(Or(x == lit(""), x == lit("/"), x == lit(".")), l,
              If(x == lit(".."), If(is_Snoc(l), init(l), l), Snoc(l, x)))

def child(K, d, x):
    return If(Or(d == null, Not(isdir(d))), null, Select(Select(K, d), x))

# ---------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.backends = {}
STATS = Stats()

def symbols(t, acc, seen):
    """Uninterpreted functions, datatype operations and constants' declarations occurring in t."""
    todo = [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            elif k in _DT:
                acc.add(x.decl().name())
            todo += x.children()

_DT = (z3.Z3_OP_DT_CONSTRUCTOR, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_DT_RECOGNISER, z3.Z3_OP_DT_IS)
_ax = None
def _ax_table():
    """[(axiom, [symbols of each pattern], all symbols)]"""
    global _ax
    if _ax is None:
        _ax = []
        for a in axioms():
            pats = []
            if z3.is_quantifier(a):
                for i in range(a.num_patterns()):
                    ps = set()
                    for ch in a.pattern(i).children():
                        symbols(ch, ps, set())
                    pats.append(ps)
            al = set()
            symbols(a, al, set())
            if not pats:                        # ground: relevant once one of its terms' functions occurs
                pats = [{n} for n in al if n in ("norm", "allclean", "nodots", "slen", "cons2", "joined", "parse", "pstr", "clsof")] or [set()]
            _ax.append((a, pats, al))
    return _ax

def select_axioms(hyps):
    return [e[0] for e in _ax_table()]

def _mk(timeout, hyps, relevancy=2):
    s = z3.SimpleSolver()
    s.set("timeout", int(timeout))
    s.set("smt.mbqi", False)
    s.set("auto_config", False)
    s.set("random_seed", 1)
    if relevancy != 2:
        s.set("smt.relevancy", relevancy)
    ctx, sv, put = s.ctx.ref(), s.solver, z3.Z3_solver_assert
    for fs in (select_axioms(hyps), lit_axioms(), hyps):
        for a in fs:
            put(ctx, sv, a.as_ast() if z3.is_expr(a) else z3.BoolVal(a).as_ast())
    return s

def check(hyps, timeout=4000, relevancy=2):
    """'unsat' | 'sat' | 'timeout'; 'sat' also covers saturated quantifiers."""
    t = time.time()
    s = _mk(timeout, hyps, relevancy)
    r = s.check()
    STATS.queries += 1
    STATS.time += time.time() - t
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s
    why = s.reason_unknown()
    if "timeout" in why or "canceled" in why or "resource" in why:
        return "timeout", s
    return "sat", s

def valid(hyps, goal, timeout=6000):
    fs = list(hyps) + [Not(goal)]
    r, s = check(fs, timeout * 0.4)
    for rel in (0, 1):      # the same query under other instantiation orders
        if r == "timeout":
            r, s = check(fs, timeout * 0.4, rel)
    return r, s

_light = {}
def light(f):
    """Names of the constants of a formula about plain values (strings, numbers, flags); None for any other formula."""
    hit = _light.get(f.get_id())
    if hit is not None:
        return hit[1]
    names, todo, seen = set(), [f], set()
    while todo and names is not None:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x) or z3.is_array(x) or x.sort() in (Ref, Obj, SL, Path):
            names = None
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 0:
            n = x.decl().name()
            if not n.startswith("lit"):
                names.add(n)
        if names is not None:
            todo += x.children()
    _light[f.get_id()] = (f, frozenset(names) if names is not None else None)
    return _light[f.get_id()][1]


def light_slice(pc, names):
    names, out, todo = set(names), [], [(c, light(c)) for c in pc]
    go = True
    while go:
        go = False
        rest = []
        for c, ns in todo:
            if ns is None:
                continue
            if ns & names:
                out.append(c)
                names |= ns
                go = True
            else:
                rest.append((c, ns))
        todo = rest
    return out


_light_seen = {}
def light_check(fs):
    key = frozenset(f.get_id() for f in fs)
    if key not in _light_seen:
        s = z3.SimpleSolver()
        s.set("timeout", 250)
        for f in list(lit_axioms()) + list(fs):
            s.add(f)
        _light_seen[key] = (str(s.check()), list(fs))
    return _light_seen[key][0]


_feas = {}
def feasible(hyps, timeout=250):
    r, _ = check(hyps, timeout)
    return r != "unsat"


def only_depends(t, idx, seen=None):
    """No fresh (per-iteration) constants in t other than idx."""
    base = int(str(idx).split("!")[-1])
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(idx):
            n = x.decl().name()
            if "!" in n:
                try:
                    if int(n.split("!")[-1]) > base:
                        return False
                except ValueError:
                    pass
        todo += x.children()
    return True


def forall_idx(idx, member, body):
    """Universally quantified over a constant, with a pattern when one is found."""
    pats = []
    todo, seen = [member, body], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() > 0 and any(c.eq(idx) for c in x.children()):
            k = x.decl().kind()
            if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                pats.append(x)
                continue
        todo += x.children() if not z3.is_quantifier(x) else []
    b = Implies(member, body)
    if pats:
        return ForAll([idx], b, patterns=pats[:4])
    return ForAll([idx], b)
