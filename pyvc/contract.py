"""Contracts: pre/postconditions, frames and exceptional postconditions, used both to verify a
function body and to replace a call of it."""
import re
import ast
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, Select, Store, ForAll, Const
from . import logic as L
from .logic import S, Ref, Obj, null, lit, fresh
from .values import *
from .engine import Engine, St, Out, Unsupported, NotSummarisable, ref, vstr, vint, vbool, vpath
from .schema import SCHEMA
from . import inv

TRUE, FALSE = BoolVal(True), BoolVal(False)
BSORT = z3.ArraySort(Ref, z3.BoolSort())


COLL = {}


def _collect():
    def go(T):
        if isinstance(T, str):
            return
        if T[0] == "opt":
            go(T[1])
        elif T[0] == "tup":
            for t in T[1]:
                go(t)
        elif T[0] == "dict":
            for k, s in Engine.dict_keys(None, T):
                COLL[k] = s
            go(T[2])
        elif T[0] == "set":
            COLL["%s.items" % tname(T)] = z3.ArraySort(SORT[T[1]], z3.BoolSort())
        elif T[0] == "list":
            n = tname(T)
            COLL[n + ".len"] = z3.IntSort()
            for i, s in enumerate(flat(T[1])):
                COLL["%s.el%d" % (n, i)] = z3.ArraySort(z3.IntSort(), s)
            go(T[1])
    for d in SCHEMA.values():
        for T in d["fields"].values():
            if T != "kids":
                go(T)
    go(("list", "path"))


def key_sort(eng, key):
    """Array sort of a heap key of the schema."""
    if "<" in key:
        if not COLL:
            _collect()
        return COLL[key]
    fam, fld = key.split(".", 1)
    base, _, i = fld.partition("#")
    if fam == "N" and fld in ("kids", "pk"):
        return z3.ArraySort(S, Ref)
    T = SCHEMA[fam]["fields"][base]
    return flat(T)[int(i) if i else 0]


def expand(keys):
    """All heap keys of the named fields."""
    out = set()
    for k in keys:
        out.add(k)
        if "<" not in k and k not in ("N.kids", "N.pk"):
            fam, fld = k.split(".", 1)
            T = SCHEMA[fam]["fields"].get(fld)
            if T is not None:
                out |= {"%s#%d" % (k, i) for i in range(1, len(flat(T)))}
    return out


class X:
    """What a clause sees: arguments, result, pre- and post-state."""

    def __init__(self, eng, pre, post, args, res=None, exc=None, contract=None):
        self.eng, self.pre, self.post, self.args, self.res, self.exc = eng, pre, post, args, res, exc
        self.contract = contract
        self.w = {}

    def __getitem__(self, n):
        return self.args[n]

    def t(self, n):
        return self.args[n].t

    def arr(self, key, when="post"):
        st = self.post if when == "post" else self.pre
        return self.eng.harr(st, key, key_sort(self.eng, key))

    def new(self, key, r):
        return Select(self.arr(key, "post"), r)

    def old(self, key, r):
        return Select(self.arr(key, "pre"), r)

    def alloc0(self, r):
        return Select(self.pre.alloc, r)


class Clause:
    def __init__(self, name, props, fn):
        self.name, self.props, self.fn = name, tuple(props), fn


class Contract:
    """params: [(name, type)], where type is a value type, ('inst', Class, {field: type}),
    a list of alternatives, or a callable (eng, st) -> V."""

    def __init__(self, q, params, **kw):
        self.q, self.params = q, params
        self.requires = kw.get("requires")            # x -> [(name, formula)]
        self.mods = expand(kw.get("mods", ()))           # heap keys the normal outcome may change
        self.ret = kw.get("ret", "none")
        self.ensures = kw.get("ensures", [])          # [Clause]
        self.value = kw.get("value")                  # (name, props, x -> term): the result is this term
        if self.value:
            nm, pr, vf = self.value
            self.ensures = [Clause(nm, pr.split(), lambda x: x.res.t == vf(x))] + list(self.ensures)
        self.elems = kw.get("elems")                  # (name, props, x -> chunks): a new list of exactly these, in some order
        self.members = kw.get("members")              # (name, props, x -> (Comp over references, index witness)): exactly these, once each
        self.gen = kw.get("gen", False)               # a generator
        self.idle = kw.get("idle", ())                # parameters the contract does not mention
        self.alone = kw.get("alone", False)           # an inner function that is verified once, in any state
        self.local = kw.get("local")                  # (eng, f) -> contract of a recursive inner function
        self.raises = kw.get("raises", {})            # class or '?' -> {"ensures": [...], "mods": set}
        for r in self.raises.values():
            r["mods"] = expand(r.get("mods", ()))
        self.lemmas = kw.get("lemmas")                # x -> [formula] valid formulas useful for the proof
        self.hints = kw.get("hints")                  # loop invariant candidates
        self.keeps = kw.get("keeps", False)           # parents and names of what existed stay as they are
        self.nohints = kw.get("nohints", ())          # generic candidates (name prefixes) not worth trying here
        self.entry = kw.get("entry", False)           # its obligations state the property itself, callers add nothing
        self.shallow = kw.get("shallow", ())          # callees of which only the frame and the exceptions matter
        self.site = kw.get("site")                    # ghost preconditions of operations inside the body
        self.props = tuple(kw.get("props", ()))
        self.usable = kw.get("usable", True)
        self.kids_mode = kw.get("kids_mode", "logical")
        self.setup = kw.get("setup")
        self.inline_only = kw.get("inline", ())       # callees executed in place although they have contracts
        self.alloc = kw.get("alloc", False)           # may allocate
        self.pure = kw.get("pure", False)
        self.timeout = kw.get("timeout", 8000)
        self.final = kw.get("final")                  # extra checks (eng, x) at every end
        self.terminates = kw.get("terminates", False)
        self.trace = kw.get("trace", False)           # False: must not call callbacks
        self.trace_props = tuple(kw.get("trace_props", "C10").split())
        self.trace_exc = kw.get("trace_exc", False)
        self.trusted = kw.get("trusted")              # reason: the contract is assumed
        self.obl_extra = kw.get("obl_extra")
        self.assumes = kw.get("assumes", ())          # texts
        self.noreturn = kw.get("noreturn", False)
        self.covers = kw.get("covers", [])            # [(name, x -> formula)] situations that must be reachable
        self.frame = tuple(kw.get("frame", "*").split())     # properties the frame conditions belong to
        self.xframe = tuple(kw.get("xframe", "*").split())   # ... of exceptional outcomes
        self.ghost = kw.get("ghost")                  # x -> [formula]: what a call does to ghost fields, by definition
        self.own = tuple(kw.get("own", "").split())   # further properties whose obligations arise here
        self.gmods = expand(kw.get("gmods", ()))
        self.trace_check = kw.get("trace_check", True)
        self.use_hints = kw.get("use_hints")          # prefixes of the names of the loop candidates to try (None: all)
        self.xprops = tuple(kw.get("xprops", "*").split())   # properties that need no other exception to escape

    def clause_props(self):
        ps = set(self.props)
        for c in self.ensures:
            ps |= set(c.props)
        ps |= set(self.xprops) | set(self.own)
        if self.elems:
            ps |= set(self.elems[1].split())
        if self.members:
            ps |= set(self.members[1].split())
        if callable(self.trace):
            ps |= set(self.trace_props)
        ps |= set(self.frame + self.xframe) - {"*"}
        if self.mods & {"N.kids", "N.parent", "N.name"} and self.kids_mode == "logical":
            ps.add("C02")
        for r in self.raises.values():
            for c in r.get("ensures", ()):
                ps |= set(c.props)
        return ps

    # ------------------------------------------------------------ symbolic arguments
    def sym(self, eng, st, T, name):
        """[(st, V)]"""
        if callable(T):
            return [(s, v) for s, v in T(eng, st)]
        if isinstance(T, list):
            out = []
            for i, t in enumerate(T):
                out += self.sym(eng, st.copy(), t, name)
            return out
        if T == "none":
            return [(st, NONE)]
        if isinstance(T, tuple) and T[0] == "inst":
            res = [(st, {})]
            for f, ft in T[2].items():
                nxt = []
                for s, acc in res:
                    for s2, v in self.sym(eng, s, ft, name + "_" + f):
                        nxt.append((s2, dict(acc, **{f: v})))
                res = nxt
            out = []
            for s, acc in res:
                i = eng.nid()
                s.insts[i] = acc
                out.append((s, Inst(i, T[1])))
            return out
        if isinstance(T, tuple) and T[0] == "opt":
            s2 = st.copy()
            return [(s2, NONE)] + self.sym(eng, st, T[1], name)
        if isinstance(T, tuple) and T[0] == "tup":
            res = [(st, [])]
            for j, x in enumerate(T[1]):
                res = [(s2, acc + [v]) for s, acc in res for s2, v in self.sym(eng, s, x, "%s%d" % (name, j))]
            return [(s, Tup(a)) for s, a in res]
        ts = [Const("arg_" + name, s) for s in flat(T)]
        v = Val(T, ts[0])
        if isref(T):
            st.assume(ts[0] != null, Select(st.alloc, ts[0]))
            if T[0] == "ref":
                if T[1] == "VirtualNode":
                    st.assume(L.isnode(ts[0]))
                elif eng.fam(T[1]) is not None:
                    st.assume(L.clsof(ts[0]) == L.cls_id(T[1]))
        if T == "path":
            st.assume(L.anchor(ts[0]) >= 0, L.anchor(ts[0]) <= 2, L.allclean(L.segs(ts[0])))
        return [(st, v)]

    # ------------------------------------------------------------ use at a call
    def apply(self, eng, st, f, args, kwargs):
        if self.q in eng.verifying.inline_only:
            return NotImplemented
        ar = f.node.args
        have = {p.arg for p in ar.posonlyargs + ar.args + ar.kwonlyargs}
        if not {p for p, _ in self.params} <= have or ar.vararg or ar.kwarg:
            return NotImplemented           # its parameters changed: execute it in place
        out = []
        for s, env in eng.bind_params(st, f, args, kwargs):
            if isinstance(env, Raise):
                out.append((s, env))
                continue
            a = {k: v for k, v in env.items() if not k.startswith("@")}
            if self.gen:
                out.append((s, Gen(self.walker(eng, a, f.node), self.q)))
            else:
                out += self.use(eng, s, a)
        return out

    def walker(self, eng, a, node):
        """The contract of a generator takes effect when it is iterated."""
        def run(st, handler):
            out = []
            for s, v in self.use(eng, st, a):
                if isinstance(v, Raise):
                    out.append(Out(s, "exc", v.ex))
                    continue
                K = [s.heap.get(k) for k in ("N.kids", "N.parent", "N.name")]
                for o in eng.run_chunks(eng.iter_chunks(s, v), s, handler, None, node):
                    for k, t in zip(("N.kids", "N.parent", "N.name"), K):
                        if t is not None and not o.st.heap[k].eq(t):
                            raise Unsupported("the tree changes while it is walked")
                    out.append(o)
            return out
        return run

    def fits(self, eng, a):
        return True

    def use(self, eng, st, a):
        if self.q in eng.contracts:     # not a local function of the one being verified
            eng.used.add(self.q)
        if self.trusted:
            eng.assumed.add("%s: %s" % (self.q, self.trusted))
        for t in self.assumes:
            eng.assumed.add(t)
        pre = st
        x = X(eng, pre.copy(), pre, a, contract=self)
        if self.requires:
            for nm, g, *rest in self.requires(x):
                s0 = pre
                if g is None:           # cannot be expressed here
                    s0, g = pre.copy(), FALSE
                    s0.imprecise = True
                eng.oblige(s0, "precondition of %s: %s" % (self.q, nm), tuple(rest[0].split()) if rest else ("*",), g)
                if s0 is pre:
                    pre.assume(g)
        eng.site(pre, "call", self, x)
        out = []
        shallow = eng.verifying is not None and self.q in eng.verifying.shallow
        pre0 = st.copy()
        pre0.heap = dict(st.heap)
        check_inv(eng, pre, "at the call of %s" % self.q)
        pre0.heap, pre0.pc, pre0.ghost = dict(pre.heap), list(pre.pc), dict(pre.ghost)
        for cls, r in [(None, None)] + list(self.raises.items()):
            s = st.copy()
            mods = (self.mods if cls is None else set(r.get("mods", ()))) | self.gmods
            al = self.alloc if cls is None else r.get("alloc", False)
            self.havoc(eng, s, pre0, mods, al)
            assume_inv(eng, s)
            # arrays mentioned only in the post-state must be shared with the pre-state
            xs = X(eng, pre0, s, a, contract=self)
            if cls is None:
                for s2, v in (self.listed(eng, s, xs) if self.elems or self.members else self.result(eng, s) if not self.value else self.valued(eng, s, xs)):
                    xr = X(eng, pre0, s2, a, res=v, contract=self)
                    for c in self.ensures[1 if self.value else 0:] if not shallow else ():
                        assume_clause(s2, c.fn(xr))
                    if self.ghost:
                        s2.assume(*self.ghost(xr))
                    if self.trace:
                        self.add_trace(eng, s2, xr)
                    if eng.feasible(s2):
                        out.append((s2, v))
            else:
                ex = Ex(None, outside=r.get("outside", ("SandboxError",))) if cls == "?" else Ex(cls)
                xr = X(eng, pre0, s, a, exc=ex, contract=self)
                for c in r.get("ensures", ()) if not shallow else ():
                    assume_clause(s, c.fn(xr))
                if self.ghost:
                    s.assume(*self.ghost(xr))
                if self.trace and r.get("trace", True):
                    self.add_trace(eng, s, xr)
                if eng.feasible(s):
                    out.append((s, Raise(ex)))
        return out

    def valued(self, eng, s, x):
        t = self.value[2](x)
        if self.ret == "path":
            s.assume(L.anchor(t) >= 0, L.anchor(t) <= 2, L.allclean(L.segs(t)))
        return [(s, Val(self.ret, t))]

    def listed(self, eng, s, x):
        if self.members:
            return [(s, eng.new_list(s, [self.members[2](x)[0]]))]
        return [(s, eng.new_list(s, self.elems[2](x)))]

    def add_trace(self, eng, st, x):
        if callable(self.trace) and (x.exc is None or self.trace_exc):
            items = self.trace(x)
            if items is not None:
                st.trace = list(st.trace) + items
                return
        from .loops import Unk
        st.trace = list(st.trace) + [Unk()]

    def havoc(self, eng, s, pre0, mods, al):
        for k in sorted(mods):
            srt = key_sort(eng, k)
            if k in s.frozen:
                raise NotSummarisable(k)
            eng.harr(pre0, k, srt)
            eng.harr(s, k, srt)
        if al:
            old = s.alloc
            s.alloc = fresh("alloc", BSORT)
            r = Const("r", Ref)
            s.assume(ForAll([r], Implies(Select(old, r), Select(s.alloc, r)), patterns=[Select(s.alloc, r), Select(old, r)]))
            s.assume(Not(Select(s.alloc, null)))
            s.assume(new_kinds(old, s.alloc, al))
        for k in sorted(mods):
            s.heap[k] = fresh(k.replace(".", "_").replace("#", "_"), z3.ArraySort(Ref, key_sort(eng, k)))
            closed(s, k, s.heap[k])
        if al == "any" and mods:
            typed(eng, s)
            for k in sorted(mods):
                if k.endswith((".val0", ".el0")):
                    typed_coll(eng, s, k)

    def result(self, eng, st):
        T = self.ret
        if callable(T):
            return T(eng, st)
        if T == "none":
            return [(st, NONE)]
        if isinstance(T, tuple) and T[0] == "inst":
            return self.fresh_val(eng, st, T)
        return self.fresh_val(eng, st, T)

    def fresh_val(self, eng, st, T):
        if isinstance(T, tuple) and T[0] == "inst":
            i = eng.nid()
            res = [(st, {})]
            for f, ft in T[2].items():
                res = [(s2, dict(acc, **{f: v})) for s, acc in res for s2, v in self.fresh_val(eng, s, ft)]
            out = []
            for s, acc in res:
                i = eng.nid()
                s.insts[i] = acc
                out.append((s, Inst(i, T[1])))
            return out
        if isinstance(T, tuple) and T[0] == "opt":
            s2 = st.copy()
            return [(s2, NONE)] + self.fresh_val(eng, st, T[1])
        if isinstance(T, tuple) and T[0] == "tup":
            res = [(st, [])]
            for x in T[1]:
                res = [(s2, acc + [v]) for s, acc in res for s2, v in self.fresh_val(eng, s, x)]
            return [(s, Tup(a)) for s, a in res]
        ts = [fresh("res", s) for s in flat(T)]
        if isref(T):
            st.assume(ts[0] != null, Select(st.alloc, ts[0]))
            if T[0] == "ref":
                if T[1] == "VirtualNode":
                    st.assume(L.isnode(ts[0]))
                elif T[1] in ("VirtualFile", "VirtualDirectory"):
                    st.assume(L.clsof(ts[0]) == L.cls_id(T[1]))
        if T == "path":
            st.assume(L.anchor(ts[0]) >= 0, L.anchor(ts[0]) <= 2, L.allclean(L.segs(ts[0])))
        return [(st, Val(T, ts[0]))]


NEWNODES = ("VirtualFile", "VirtualDirectory", "NodePolicy", "<collection>")


def new_kinds(old, new, al):
    """Objects that were not allocated before are of the named classes."""
    r = Const("r", Ref)
    if al == "any":
        return TRUE
    kinds = NEWNODES if al is True else al
    return ForAll([r], Implies(And(Select(new, r), Not(Select(old, r))), Or([L.clsof(r) == L.cls_id(c) for c in kinds])),
                  patterns=[Select(new, r)])


def assume_clause(st, g):
    if isinstance(g, list):
        st.assume(*[f for _, f in g])
    elif g is not None:
        st.assume(g)


def closed(st, key, arr):
    """References stored in the heap are null or allocated."""
    rng = arr.sort().range()
    r = Const("r", Ref)
    if rng == Ref:
        t = Select(arr, r)
        st.assume(ForAll([r], Implies(Select(st.alloc, r), Or(t == null, Select(st.alloc, t))), patterns=[t]))
    elif rng == z3.ArraySort(S, Ref):
        x = Const("x", S)
        t = Select(Select(arr, r), x)
        st.assume(ForAll([r, x], Implies(Select(st.alloc, r), Or(t == null, Select(st.alloc, t))), patterns=[t]))


def initial_state(eng):
    st = St()
    st.alloc = Const("alloc@0", BSORT)
    st.assume(Not(Select(st.alloc, null)))
    for fam, d in SCHEMA.items():
        for fld, T in d["fields"].items():
            if T == "kids":
                keys = ["N.kids", "N.pk"]
            else:
                n = len(flat(T))
                keys = ["%s.%s" % (fam, fld)] + ["%s.%s#%d" % (fam, fld, i) for i in range(1, n)]
            for k in keys:
                a = eng.harr(st, k, key_sort(eng, k))
                closed(st, k, a)
    typed(eng, st)
    if not COLL:
        _collect()
    for k in sorted(COLL):
        if k.endswith((".val0", ".el0")):
            typed_coll(eng, st, k)
    return st


def typed(eng, st):
    """Fields that are not optional hold objects."""
    n = Const("n", Ref)
    for fam, d in SCHEMA.items():
        for fld, T in d["fields"].items():
            opt = not isinstance(T, str) and T[0] == "opt" and isref(T[1])
            if T == "kids" or not isref(T) and not opt:
                continue
            T = T[1] if opt else T
            k = "%s.%s" % (fam, fld)
            a = eng.harr(st, k, key_sort(eng, k))
            t = Select(a, n)
            cls = Or([L.clsof(n) == L.cls_id(c) for c in d["classes"] if c != "VirtualNode"])
            kind = L.clsof(t) == L.cls_id(T[1]) if T[0] == "ref" and T[1] != "VirtualNode" else TRUE
            st.assume(ForAll([n], Implies(And(Select(st.alloc, n), cls), Or(t == null, kind) if opt else And(t != null, kind)), patterns=[t]))


def typed_coll(eng, st, k):
    """The values of a dictionary (elements of a list) of objects are objects."""
    m = re.match(r"list<ref<(\w+)>>\.", k)
    if m:
        base = k.rsplit(".", 1)[0]
        ln, el = [eng.harr(st, base + x, key_sort(eng, base + x)) for x in (".len", ".el0")]
        r, i = Const("r", Ref), Const("i", z3.IntSort())
        v = Select(Select(el, r), i)
        st.assume(ForAll([r, i], Implies(And(Select(st.alloc, r), i >= 0, i < Select(ln, r)), And(
            v != null, Select(st.alloc, v), L.clsof(v) == L.cls_id(m.group(1)))), patterns=[v]))
        return
    m = re.match(r"dict<(\w+),ref<(\w+)>>\.", k)
    if not m:
        return
    base = k.rsplit(".", 1)[0]
    D = eng.harr(st, base + ".dom", key_sort(eng, base + ".dom"))
    V = eng.harr(st, base + ".val0", key_sort(eng, base + ".val0"))
    r, x = Const("r", Ref), Const("x", SORT[m.group(1)])
    v = Select(Select(V, r), x)
    st.assume(ForAll([r, x], Implies(And(Select(st.alloc, r), Select(Select(D, r), x)),
                                     And(v != null, Select(st.alloc, v), L.clsof(v) == L.cls_id(m.group(2)))), patterns=[v]))


def all_keys():
    out = set()
    for fam, d in SCHEMA.items():
        for fld, T in d["fields"].items():
            out |= {"N.kids", "N.pk"} if T == "kids" else {"%s.%s" % (fam, fld)}
    if not COLL:
        _collect()
    return expand(out) | set(COLL)


def havoc_all(eng, st, keys, al="any"):
    """An operation that may change all of these keys and create objects."""
    pre0 = st.copy()
    Contract("-", []).havoc(eng, st, pre0, keys, al)
    assume_inv(eng, st)


def assume_inv(eng, st):
    """The state satisfies the tree invariant."""
    t = inv.T(eng, st)
    if st.ghost.get("inv") == t.ident():
        return
    for _, f in inv.invariant(t):
        st.assume(f)
    for f in inv.derived(t):
        st.assume(f)
    st.ghost["inv"] = t.ident()


def check_inv(eng, st, where):
    """Obliges the tree invariant where the state changed since it was last established."""
    t = inv.T(eng, st)
    if st.ghost.get("inv") == t.ident():
        return
    for nm, f in inv.invariant(t):
        eng.oblige(st, "tree invariant (%s) %s" % (nm, where), ("C02",), f)
    assume_inv(eng, st)


def alternatives(contracts, q):
    """Number of combinations of argument kinds."""
    eng = Engine(None, SCHEMA, contracts)
    c = contracts[q]
    st = St()
    st.alloc = Const("alloc@0", BSORT)
    n = 1
    for nm, T in c.params:
        n *= len(c.sym(eng, st.copy(), T, nm))
    return n


def verify_function(prog, contracts, q, alt=None, inline=(), unroll=0):
    """Runs the verifier on one function (or one combination of its argument kinds); returns the engine with
    its obligations.  Calls of the functions in inline are executed in place instead of by contract."""
    c = contracts[q]
    if inline:
        import copy
        c = copy.copy(c)
        c.inline_only = tuple(c.inline_only) + tuple(inline)
    hit = prog.function(q)
    eng = Engine(prog, SCHEMA, contracts)
    eng.verifying = c
    eng.unroll = unroll
    eng.used = set()
    eng.foralls = []    # (index, formula): preconditions that hold for every index
    eng.active = q
    eng.kids_mode = c.kids_mode
    eng.loop_log = []
    eng.covered = set()
    from . import hints
    eng.loop_hints = hints.generic
    eng.contract_hints = c.hints
    eng.site_checks = c.site
    if hit is None:
        raise Unsupported("%s no longer exists" % q)
    module, owner, node = hit
    st0 = initial_state(eng)
    states = [(st0, {}, True)]
    named = {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name)}
    for nm, T in c.params:
        nxt = []
        for s, acc, new in states:
            for k, (s2, v) in enumerate(c.sym(eng, s, T, nm)):
                # a parameter that neither the contract nor the body mentions: one kind stands for all
                nxt.append((s2, dict(acc, **{nm: v}), new and (k == 0 or nm not in c.idle or nm in named)))
        states = nxt
    nouts = 0
    eng.skipped = alt is not None and not states[alt][2]
    for s, a, new in states if alt is None else [states[alt]]:
        if not new:
            continue
        x0 = X(eng, s, s, a, contract=c)
        if c.setup:
            c.setup(x0)
        if c.requires:
            for nm, g, *rest in c.requires(x0):
                if g is not None:
                    s.assume(g)
        assume_inv(eng, s)
        eng.arg_nodes = [v.t for v in a.values() if isinstance(v, Val) and isref(v.T) and v.T[0] == "ref"
                         and eng.fam(v.T[1]) == "N"]
        eng.args = a
        pre = s.copy()
        eng.entry = pre
        if c.keeps:
            from . import inv
            eng.path_base = inv.T(eng, pre)
        names = [p.arg for p in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        decos = [getattr(d, "id", "") for d in node.decorator_list]
        static = "staticmethod" in decos
        kw = {k: v for k, v in a.items() if k != "self"}
        f_self = a.get("self")
        # the contract names parameters by their public names
        from .values import Func
        fn = Func(node, module, self_=None if static else f_self, cls=owner)
        saved, eng.contracts = eng.contracts, {k: v for k, v in contracts.items() if k != q or eng_recursive(c)}
        try:
            res = call_body(eng, s, fn, kw, q)
        finally:
            eng.contracts = saved
        for s2, v in res:
            nouts += 1
            finish(eng, c, pre, s2, a, v)
    eng.nouts = nouts
    eng.uncovered = [] if eng.skipped else [nm for nm, _ in c.covers or [("normal return", None)] if nm not in eng.covered]
    return eng


def eng_recursive(c):
    return True


def call_body(eng, st, fn, kw, q):
    """Executes the body itself (never the contract) of the function under verification."""
    out = []
    for s, env in eng.bind_params(st, fn, [], kw):
        if isinstance(env, Raise):
            raise Unsupported("parameters of %s changed" % q)
        if eng.is_generator(fn.node):
            out += run_generator(eng, s, fn, env, q)
            continue
        nf = eng.nid()
        s.envs[nf] = env
        outs = eng.ex(fn.node.body, s, nf)
        for o in outs:
            if o.kind == "next":
                out.append((o.st, NONE))
            elif o.kind == "ret" and isinstance(o.val, Gen):
                out += run_to_list(eng, o.st, o.val)
            elif o.kind == "ret":
                out.append((o.st, o.val))
            elif o.kind == "exc":
                out.append((o.st, Raise(o.val)))
            else:
                raise Unsupported("control flow")
    return out


def run_generator(eng, st, fn, env, q):
    return run_to_list(eng, st, eng.make_gen(fn, env, q))


def run_to_list(eng, st, gen):
    """Runs a generator to its end; the result is the list of what it yields."""
    acc = eng.new_list(st, [])

    def handler(s, v):
        eng.list_extend(s, acc, [Item(v)])
        return [Out(s, "next")]
    return [(o.st, acc if o.kind == "next" else Raise(o.val)) for o in gen.run(st, handler)]


def leaves(chunks, ctx=(), conds=()):
    """[(index chain, conditions, value)] of everything a sequence contains."""
    out = []
    for c in chunks:
        if isinstance(c, Item):
            out.append((ctx, conds, c.v))
        elif isinstance(c, Comp):
            for k, ch in c.alts:
                out += leaves(ch, ctx + ((c.src, c.idx),), conds + (c.src.member(c.idx), k))
        else:
            return [None]
    return out


def conjuncts(f):
    if z3.is_and(f):
        return [g for x in f.children() for g in conjuncts(x)]
    return [f]


def undefine(conds, base):
    """Replaces constants that are only names of terms."""
    cs = [g for c in conds for g in conjuncts(c)]
    m = []
    go = True
    while go:
        go = False
        for i, g in enumerate(cs):
            if not z3.is_eq(g):
                continue
            for a, b in (g.children(), g.children()[::-1]):
                nm = a.decl().name() if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED else ""
                if "!" in nm and int(nm.split("!")[-1]) > base and not nm.startswith("ix!") and not occurs(a, b):
                    del cs[i]
                    cs = [z3.substitute(x, [(a, b)]) for x in cs]
                    m = [(x, z3.substitute(y, [(a, b)])) for x, y in m] + [(a, b)]
                    go = True
                    break
            if go:
                break
    return cs, m


def occurs(a, t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.eq(a):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


def members_eq(eng, st, got, want, wit):
    """[(name, goal, exact)]: the sequence has exactly the elements of want (a Comp over references), each once."""
    lv = leaves(got)
    if None in lv:
        return [("are known", FALSE, False)]
    wmem = lambda n: z3.substitute(want.src.member(want.idx), [(want.idx, n)])
    (wk, (wi,)), = want.alts
    out, ways = [], []
    n = fresh("member", Ref)
    for j, (ctx, conds, v) in enumerate(lv):
        key = v.items[-1].t if isinstance(v, Tup) and isinstance(v.items[-1], Val) else v.t if isinstance(v, Val) else None
        if key is None or key.sort() != Ref:
            return [("are known", FALSE, False)]
        base = min([int(str(i).split("!")[-1]) for _, i in ctx] or [1 << 60])
        cs, m = undefine(conds, base)
        key = z3.substitute(key, m)
        elem = eng.subst_chunk(st, wi, [(want.idx, key)]).v
        v2 = eng.subst_chunk(st, Item(v), m).v
        same = val_eq(eng, st, v2, elem)
        out.append(("each one belongs (%d)" % (j + 1), Implies(And(cs), And(wmem(key), z3.substitute(wk, [(want.idx, key)]),
                    same if same is not None else FALSE)), same is not None))
        if wit is None:         # nothing is said about which ones, or how often
            continue
        w = [(i, wit(src, i, n)) for src, i in ctx]
        ways.append(And([z3.substitute(c, w) for c in cs] + [z3.substitute(key, w) == n]))
        for src, i in ctx:
            if not i.eq(key):
                out.append(("each one appears once (%d)" % (j + 1), Implies(And(cs), i == z3.substitute(wit(src, i, n), [(n, key)])), True))
    if wit is None:
        return out
    marks = [L.mark(m) for m in getattr(wit, "marks", lambda n: ())(n)]
    out.append(("none is missing", Implies(And(marks + [wmem(n)] + [z3.substitute(wk, [(want.idx, n)])]), Or(ways + [FALSE])), True))
    for i in range(len(ways)):
        for j in range(i):
            out.append(("each one appears once (%d, %d)" % (j + 1, i + 1), Not(And(ways[i], ways[j])), True))
    return out


def finish(eng, c, pre, st, a, v):
    for k in sorted(st.heap):
        if k not in pre.heap or not st.heap[k].eq(pre.heap[k]):
            t = eng.atom(st, st.heap[k])
            if not t.eq(st.heap[k]):
                st.heap[k] = t
    exc = v.ex if isinstance(v, Raise) else None
    check_inv(eng, st, "at the end" if exc is None else "after an exception")
    if exc is None and isref(c.ret) and c.ret[0] == "list" and isinstance(v, LList) and not c.ensures:
        if any(isinstance(k, (Item, Comp)) for k in eng.chunks(st, v)) and eng.elem_type(st, v) != c.ret[1]:
            eng.oblige(st, "returns a list of %s" % (c.ret[1],), ("*",), FALSE)     # nothing else is said about it
    elif exc is None and isref(c.ret) and c.ret[0] in ("dict", "set", "list") and not isinstance(v, Val):
        v = Val(c.ret, eng.pack(st, c.ret, v)[0])
    x = X(eng, pre, st, a, res=None if exc else v, exc=exc, contract=c)
    if exc is None:
        for nm, f in c.covers or [("normal return", lambda x: TRUE)]:
            if nm not in eng.covered and L.check(list(eng.hyps(st)) + [f(x)], 1000)[0] != "unsat":
                eng.covered.add(nm)
    lem = c.lemmas(x) if c.lemmas else []
    if exc is None:
        clauses, mods, label = c.ensures, c.mods, "ensures"
        try:
            c.check_result(eng, st, v)
        except AttributeError:
            pass
    else:
        names = eng.prog.mro(exc.cls) if exc.cls else []
        hit = None
        for n in names + ["?"]:
            if n in c.raises:
                hit = n
                break
        label = "raises %s" % (exc.cls or "any exception")
        if hit is None:
            eng.oblige(st, "%s is not raised" % (exc.cls or "an unknown exception"), c.xprops, FALSE)
            return
        clauses, mods = c.raises[hit].get("ensures", ()), set(c.raises[hit].get("mods", ()))
    for cl in clauses:
        g = cl.fn(x)
        if g is not None:
            for nm, part in (g if isinstance(g, list) else [("", g)]):
                eng.oblige(st, "%s: %s%s" % (label, cl.name, (" / " + nm) if nm else ""), cl.props or ("*",), part, lem)
    if c.members and exc is None:
        want, wit = c.members[2](x)
        for nm, g, exact in members_eq(eng, st, eng.iter_chunks(st, x.res), want, wit):
            s3 = st
            if not exact:
                s3 = st.copy()
                s3.imprecise = True
            eng.oblige(s3, "%s: %s, %s" % (label, c.members[0], nm), tuple(c.members[1].split()), g, lem)
    if c.elems and exc is None:
        try:
            got = eng.iter_chunks(st, x.res)
        except Unsupported:
            got = None
        for nm, g, exact in [("are listed", FALSE, False)] if got is None else trace_eq(eng, st, got, c.elems[2](x)):
            s3 = st
            if not exact:
                s3 = st.copy()
                s3.imprecise = True
            eng.oblige(s3, "%s: %s, %s" % (label, c.elems[0], nm), tuple(c.elems[1].split()), g, lem)
    # frame
    for k in sorted(st.heap):
        if k in mods or "<" in k:
            continue
        old = pre.heap.get(k)
        if old is None or st.heap[k].eq(old):
            continue
        r = fresh("fr", Ref)
        n = Select(st.heap[k], r)
        o = Select(old, r)
        if n.sort() == z3.ArraySort(S, Ref):
            y = fresh("fx", S)
            n, o = Select(n, y), Select(o, y)
        same = n == o
        base, _, i = k.partition("#")
        if i:               # the value of an optional field does not matter when it is None
            T = SCHEMA[k.split(".")[0]]["fields"][base.split(".", 1)[1]]
            if not isinstance(T, str) and T[0] == "opt":
                same = Or(same, Select(st.heap[base], r))
        eng.oblige(st, "%s: frame %s" % (label, k), c.xframe if exc else c.frame, Implies(Select(pre.alloc, r), same), lem)
    for k in sorted(st.heap):
        if "<" not in k:
            continue
        old = pre.heap.get(k)
        if old is None:
            old = Const(k + "@0", st.heap[k].sort())
        if st.heap[k].eq(old) or k in mods:
            continue
        r = fresh("fr", Ref)
        eng.oblige(st, "%s: frame %s" % (label, k), c.xframe if exc else c.frame,
                   Implies(Select(pre.alloc, r), Select(st.heap[k], r) == Select(old, r)), lem)
    al = c.alloc if exc is None else c.raises[hit].get("alloc")
    if al and not st.alloc.eq(pre.alloc):
        eng.oblige(st, "%s: kinds of new objects" % label, ("*",), new_kinds(pre.alloc, st.alloc, al), lem)
    if not c.trace and c.trace_check and len(st.trace) != len(pre.trace):
        eng.oblige(st, "%s: no callback is called" % label, c.trace_props, FALSE)
    if callable(c.trace) and exc is None:
        want = c.trace(x)
        if want is not None:
            for nm, g, exact in trace_eq(eng, st, st.trace[len(pre.trace):], want):
                s3 = st
                if not exact:
                    s3 = st.copy()
                    s3.imprecise = True
                eng.oblige(s3, "%s: callbacks %s" % (label, nm), c.trace_props, g, lem)
    if c.final:
        c.final(eng, x)


def val_eq(eng, st, a, b):
    """Formula, or None when the values cannot be compared."""
    if a is NONE or b is NONE:
        return BoolVal(a is b)
    if isinstance(a, Val) and isinstance(b, Val):
        if a.t.sort() != b.t.sort():
            return None
        return a.t == b.t
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        fs = [val_eq(eng, st, x, y) for x, y in zip(a.items, b.items)]
        return None if any(f is None for f in fs) else And(fs) if fs else TRUE
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls == b.cls:
        fa, fb = st.insts[a.id], st.insts[b.id]
        if set(fa) != set(fb):
            return None
        fs = [val_eq(eng, st, fa[k], fb[k]) for k in sorted(fa)]
        return None if any(f is None for f in fs) else And(fs) if fs else TRUE
    return None


def contributes(chunks):
    return any(not isinstance(c, Comp) or any(contributes(ch) for _, ch in c.alts) for c in chunks)


def empty_cond(eng, c):
    """Formula saying that chunk c contributes nothing (free index: universally quantified)."""
    if isinstance(c, Comp):
        fs = []
        for k, ch in c.alts:
            if contributes(ch):
                fs.append(Not(And(c.src.member(c.idx), k)))
        return And(fs) if fs else TRUE
    return FALSE


def chunk_eq(eng, st, a, b):
    """Formula (free indices) or None."""
    if isinstance(a, Item) and isinstance(b, Item):
        return val_eq(eng, st, a.v, b.v)
    if isinstance(a, SLs) and isinstance(b, SLs):
        return a.t == b.t
    if isinstance(a, Comp) and isinstance(b, Comp):
        c = a.src.same(b.src)
        if c is None:
            return None
        m = [(b.idx, a.idx)]
        fs = [c]
        mem = a.src.member(a.idx)
        aa = [(k, ch) for k, ch in a.alts if contributes(ch)]
        bb = [(z3.substitute(k, m), [eng.subst_chunk(st, x, m) for x in ch]) for k, ch in b.alts if contributes(ch)]
        fs.append(Implies(mem, Or([k for k, _ in aa] + [FALSE]) == Or([k for k, _ in bb] + [FALSE])))
        for ka, ca in aa:
            for kb, cb in bb:
                f = seq_eq(eng, st, ca, cb)
                fs.append(Implies(And(mem, ka, kb), f if f is not None else FALSE))
        return And(fs)
    return None


def seq_eq(eng, st, A, B):
    if len(A) != len(B):
        return None
    fs = [chunk_eq(eng, st, a, b) for a, b in zip(A, B)]
    return None if any(f is None for f in fs) else And(fs) if fs else TRUE


def thin(chunks):
    return len(chunks) <= 1 and all(isinstance(c, Item) or isinstance(c, Comp) and all(thin(ch) for _, ch in c.alts)
                                    for c in chunks)


def nested_eq(eng, st, a, b):
    """Two nests of loops over the same collections contribute the same for every choice of indices, or None."""
    if not isinstance(a, Comp) or not isinstance(b, Comp):
        return None
    A, B = leaves([a]), leaves([b])
    if not A or not B:
        return None
    depth = {len(ctx) for ctx, _, _ in A + B}
    if len(depth) != 1:
        return None
    base = int(str(a.idx).split("!")[-1])
    names = [fresh("ix", src.sort) for src, _ in A[0][0]]
    fs, LA, LB = [], [], []
    srcs = None
    for side, out in ((A, LA), (B, LB)):
        for ctx, conds, v in side:
            if [s.sort for s, _ in ctx] != [n.sort() for n in names]:
                return None
            m0 = [(i, n) for (_, i), n in zip(ctx, names)]
            cs, m = undefine(conds, min(int(str(i).split("!")[-1]) for _, i in ctx)) if side is A else (
                [g for c in conds for g in conjuncts(c)], [])
            cs = [z3.substitute(c, m0) for c in cs]
            v2 = eng.subst_chunk(st, eng.subst_chunk(st, Item(v), m), m0).v
            # the collections, outermost first, with the names of the outer indices in place
            mine = [subst_src(s, m + m0) for s, _ in ctx]
            if srcs is None:
                srcs = mine
            else:
                for k, (p, q) in enumerate(zip(srcs, mine)):
                    c = p.same(q)
                    if c is None:
                        return None
                    if not z3.is_true(c):
                        fs.append(Implies(And(cs), c))
            out.append((And(cs), v2))
    fs.append(Or([c for c, _ in LA]) == Or([c for c, _ in LB]))
    for ca, va in LA:
        for cb, vb in LB:
            f = val_eq(eng, st, va, vb)
            if f is None:
                return None
            fs.append(Implies(And(ca, cb), f))
    return And(fs)


def subst_src(src, m):
    s = Src(src.kind, tuple(i if isinstance(i, str) else z3.substitute(i, m) for i in src.ident), src.sort, src.member, src.elem)
    return s


def trace_eq(eng, st, A, B):
    """[(name, goal)] obligations saying that two chunk sequences are equal."""
    A, B = list(A), list(B)
    hy = eng.hyps(st)

    def prune(cs):
        return [c for c in cs if not (isinstance(c, Comp) and (
            not contributes([c]) or L.valid(hy, empty_cond(eng, c), 1500)[0] == "unsat"))]
    A, B = prune(A), prune(B)
    if not A or not B:
        return [("group %d are exactly the specified ones" % (i + 1), empty_cond(eng, c), True) for i, c in enumerate(A or B)]
    if len(A) != len(B):
        return [("are exactly the specified ones", FALSE, False)]
    out = []
    for i, (a, b) in enumerate(zip(A, B)):
        f = nested_eq(eng, st, a, b) if thin([a]) and thin([b]) else None
        if f is None:
            f = chunk_eq(eng, st, a, b)
        out.append(("group %d are exactly the specified ones" % (i + 1), f if f is not None else FALSE, f is not None))
    return out
