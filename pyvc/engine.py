"""Forward symbolic execution of the real ASTs, generating proof obligations.

Every statement of a function under contract is executed symbolically; branches fork the
path, calls to functions that have a contract use the contract, other project functions are
executed in place, loops are summarised exactly (comprehension normal form, first-exit) or cut
with inferred invariants.  A construct outside the subset raises Unsupported, which makes the
function 'out of reach' (bounded stand-in), never a violation.
"""
import ast
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, Select, Store, ForAll, Exists, Const
from . import logic as L
from .logic import S, Ref, Obj, null, lit, fresh
from .values import *
from .source import BUILTIN_EXC

TRUE, FALSE = BoolVal(True), BoolVal(False)
OBJS = ("obj", "hpath") + FUNS


class Unsupported(Exception):
    pass


class NotSummarisable(Exception):
    pass


class Out:
    __slots__ = ("st", "kind", "val")

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val


class St:
    __slots__ = ("pc", "heap", "envs", "lists", "dicts", "insts", "trace", "alloc", "imprecise", "frozen",
                 "handlers", "notes", "ghost")

    def __init__(self):
        self.pc, self.heap, self.envs, self.lists, self.dicts, self.insts = [], {}, {}, {}, {}, {}
        self.trace, self.alloc, self.imprecise, self.frozen = [], None, False, frozenset()
        self.handlers, self.notes, self.ghost = (), (), {}

    def copy(self):
        o = St()
        o.pc, o.heap, o.envs = list(self.pc), dict(self.heap), dict(self.envs)
        o.lists, o.dicts, o.insts = dict(self.lists), dict(self.dicts), dict(self.insts)
        o.trace, o.alloc, o.imprecise, o.frozen = list(self.trace), self.alloc, self.imprecise, self.frozen
        o.handlers, o.notes, o.ghost = self.handlers, self.notes, dict(self.ghost)
        return o

    def assume(self, *fs):
        for f in fs:
            if f is True or (z3.is_expr(f) and z3.is_true(f)):
                continue
            self.pc.append(f if z3.is_expr(f) else BoolVal(bool(f)))
        return self

    def set(self, fid, name, v):
        env = dict(self.envs[fid])
        env[name] = v
        self.envs[fid] = env


def simp(t):
    return z3.simplify(t)


def conc_bool(t):
    if isinstance(t, bool):
        return t
    t = simp(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else None


def vbool(t):
    return Val("bool", t if z3.is_expr(t) else BoolVal(bool(t)))


def vint(t):
    return Val("int", t if z3.is_expr(t) else IntVal(t))


def vstr(s, lab=()):
    return Val("str", lit(s) if isinstance(s, str) else s, lab)


def vpath(t):
    return Val("path", t)


def ref(cls, t):
    return Val(("ref", cls), t)


def labs(*vs):
    out = []
    for v in vs:
        for l in getattr(v, "lab", ()) or ():
            if l not in out:
                out.append(l)
    return tuple(out)


_REV = {}


def lit_of(t):
    """Python string of a literal term, or None."""
    for s, (i, c) in L._lits.items():
        if c.eq(t):
            return s
    return None


DOBJ = ("dict", "str", "obj")


def is_rx(t):
    """A compiled pattern or a match: neither None nor false."""
    return z3.is_app(t) and t.decl().name().startswith(("rx_compile", "rxm_"))


class Engine:
    def __init__(self, prog, schema, contracts, budget=None):
        self.prog, self.schema, self.contracts = prog, schema, contracts
        self.family = {}
        for fam, d in schema.items():
            for c in d["classes"]:
                self.family[c] = fam
        self.obls = []              # (name, props, hyps, goal, imprecise)
        self.active = None
        self.inlining = []
        self.local_active = []
        self.local_done = set()
        self.counter = 0
        self.kids_mode = "logical"
        self.budget = budget
        self.solver = None
        self.called = set()
        self.inlined = set()
        self.assumed = set()
        self.loop_hints = None
        self.path_base = None       # the tree before the call, when the nodes that existed keep their chains
        self.site_checks = None     # hook called on interesting operations (ghost preconditions)
        self.nfork = 0
        self.unroll = 0             # 0: loops by invariants; n: at most n iterations, exactly
        self.depth = 0
        self.loop_log = []
        self.names, self.defs = {}, []
        self.used = set()
        self.verifying = None
        self.arg_nodes, self.args, self.contract_hints = [], {}, None

    def roots(self, st):
        """Root directories the paths of this function start from."""
        out = []
        for v in self.args.values():
            if isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "ref":
                if v.T[1] == "VirtualFileSystem":
                    out.append(Select(self.harr(st, "V.root", Ref), v.t))
                elif v.T[1] == "SandboxShell":
                    out.append(Select(self.harr(st, "V.root", Ref), Select(self.harr(st, "H.vfs", Ref), v.t)))
        return out

    def extra_hints(self, *a):
        return self.contract_hints(self, *a) if self.contract_hints is not None else []

    def named(self, t, name):
        """A constant for a closed term over arguments and the initial heap."""
        i = t.get_id()
        if i in self.names:
            return self.names[i][1]
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) or z3.is_const(x) and "!" in x.decl().name():
                return t
            todo += x.children()
        c = Const("%s@%d" % (name, len(self.names)), t.sort())
        self.names[i] = (t, c)
        self.defs.append(c == t)
        return c

    def hyps(self, st):
        return self.defs + self.hyps1(st)

    def hyps1(self, st):
        from . import inv
        if self.path_base is not None and st.alloc is not None:
            return st.pc + inv.kept_chains(self.path_base, inv.T(self, st)) + self.hyps2(st)
        return st.pc + self.hyps2(st)

    def hyps2(self, st):
        from . import inv
        if not st.ghost.get("ev"):
            return []
        rs = self.roots(st)
        if "root0" in st.ghost:
            rs = rs + [r for r in st.ghost["root0"] if not any(r.eq(q) for q in rs)]
        return inv.instances(self, st, rs)

    # ------------------------------------------------------------------ basics
    def nid(self):
        self.counter += 1
        return self.counter

    def feasible(self, st):
        self.nfork += 1
        if self.nfork > 20000:
            raise Unsupported("too many paths")
        return L.feasible(self.defs + st.pc)

    def branch(self, st, cond):
        """[(state, bool)] for the feasible sides of cond."""
        c = conc_bool(cond)
        if c is not None:
            return [(st, c)]
        out = []
        a = st.copy().assume(cond)
        b = st.assume(Not(cond))
        lt = L.light(cond)
        if lt:              # about plain values only: the other facts about them decide
            rel = L.light_slice(st.pc[:-1], lt)
            return [(x, v) for x, v, c in ((a, True, cond), (b, False, b.pc[-1])) if L.light_check(rel + [c]) != "unsat"] or [(b, False)]
        if self.feasible(a):
            out.append((a, True))
            if self.feasible(b):
                out.append((b, False))
        else:
            out.append((b, False))
        return out

    def oblige(self, st, name, props, goal, extra=()):
        self.obls.append({"name": name, "props": tuple(props), "hyps": list(self.hyps(st)) + list(extra), "goal": goal,
                          "imprecise": st.imprecise, "fn": self.active, "notes": st.notes})

    # ------------------------------------------------------------------ heap
    def harr(self, st, key, sort):
        if key not in st.heap:
            st.heap[key] = Const(key + "@0", z3.ArraySort(Ref, sort))
        return st.heap[key]

    @staticmethod
    def arr0(key, sort):
        return Const(key + "@0", z3.ArraySort(Ref, sort))

    def fam(self, cls):
        return self.family.get(cls)

    def ftype(self, cls, field):
        f = self.fam(cls)
        if f is None:
            return None
        return self.schema[f]["fields"].get(field)

    def fkeys(self, cls, field):
        T = self.ftype(cls, field)
        base = "%s.%s" % (self.fam(cls), field)
        sorts = flat(T)
        return T, [(base if i == 0 else "%s#%d" % (base, i), s) for i, s in enumerate(sorts)]

    def rd(self, st, r, cls, field):
        """Raw terms of a field."""
        T, ks = self.fkeys(cls, field)
        return T, [Select(self.harr(st, k, s), r) for k, s in ks]

    def get(self, st, r, cls, field):
        """[(st, V)]: reads a field, forking on None."""
        T = self.ftype(cls, field)
        if T == "kids":
            return [(st, Kids(r))]
        T, ts = self.rd(st, r, cls, field)
        return self.unpack(st, T, ts)

    def put(self, st, r, cls, field, v):
        T = self.ftype(cls, field)
        if T == "kids":
            if isinstance(v, LDict) and not self.ditems(st, v.id) and st.dicts[v.id]["base"] is None:
                self.set_kids(st, r, z3.K(S, null))
                return
            raise Unsupported("assignment to children")
        T, ks = self.fkeys(cls, field)
        ts = self.pack(st, T, v)
        for (k, s), t in zip(ks, ts):
            if k in st.frozen:
                raise NotSummarisable(k)
            old = self.harr(st, k, s)
            t = self.atom(st, t)
            if k == "N._loaded" and self.kids_mode != "phys":
                self.set_loaded(st, r, t)
            st.heap[k] = Store(old, r, t)
            if k in ("N.parent", "N.name"):
                self.event(st, k, old, r, t)

    def atom(self, st, t):
        """A name for a term that could not occur in a quantifier pattern."""
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() in (
                    z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT):
                c = fresh("nm", t.sort())
                st.assume(c == t)
                return c
            todo += x.children()
        return t

    def unpack(self, st, T, ts):
        if isinstance(T, str):
            if T == "none":
                return [(st, NONE)]
            return [(st, Val(T, ts[0]))]
        k = T[0]
        if k in ("ref", "list", "dict", "set"):
            return [(st, Val(T, ts[0]))]
        if k == "opt":
            if isref(T[1]):
                out = []
                for s2, b in self.branch(st, ts[0] == null):
                    out.append((s2, NONE) if b else (s2, Val(T[1], ts[0])))
                return out
            out = []
            for s2, b in self.branch(st, ts[0]):
                if b:
                    out.append((s2, NONE))
                else:
                    out += self.unpack(s2, T[1], ts[1:])
            return out
        if k == "tup":
            res = [(st, [])]
            for x in T[1]:
                n = len(flat(x))
                cur, ts = ts[:n], ts[n:]
                nxt = []
                for s2, acc in res:
                    for s3, v in self.unpack(s2, x, cur):
                        nxt.append((s3, acc + [v]))
                res = nxt
            return [(s2, Tup(a)) for s2, a in res]
        raise Unsupported("type %r" % (T,))

    def pack(self, st, T, v):
        if isinstance(T, str):
            if T == "none":
                return []
            if isinstance(v, Val):
                if v.T == T:
                    return [v.t]
                if T == "real" and v.T == "int":
                    return [z3.ToReal(v.t)]
                if T in OBJS and v.T in OBJS:
                    return [v.t]
                if T == "obj":
                    return [self.box(v, st)]
                if T == "int" and v.T == "bool":
                    return [If(v.t, IntVal(1), IntVal(0))]
            if T in FUNS or T == "obj":
                return [self.box(v, st)]
            raise Unsupported("cannot store %r as %s" % (v, T))
        k = T[0]
        if k == "opt":
            if isref(T[1]):
                return [null] if v is NONE else self.pack(st, T[1], v)
            if v is NONE:
                return [TRUE] + [fresh("dc", s) for s in flat(T[1])]
            return [FALSE] + self.pack(st, T[1], v)
        if k == "ref":
            if isinstance(v, Val) and isref(v.T):
                return [v.t]
            raise Unsupported("cannot store %r as %s" % (v, tname(T)))
        if k == "tup":
            if isinstance(v, Tup) and len(v.items) == len(T[1]):
                return [t for x, i in zip(T[1], v.items) for t in self.pack(st, x, i)]
        if k == "dict":
            if isinstance(v, Val) and v.T[0] == "dict":
                return [v.t]
            if isinstance(v, LDict):
                return [self.heapify_dict(st, v, T)]
            if isinstance(v, SeqV) and v.kind == "dict":
                return [self.heapify_comp(st, v, T)]
        if k == "set":
            if isinstance(v, Val) and v.T[0] == "set":
                return [v.t]
            if isinstance(v, LSet):
                r = self.alloc(st, None)
                arr = z3.K(SORT[T[1]], FALSE)
                for i in v.items:
                    arr = Store(arr, self.pack(st, T[1], i)[0], TRUE)
                key = "%s.items" % tname(T)
                st.heap[key] = Store(self.harr(st, key, z3.ArraySort(SORT[T[1]], z3.BoolSort())), r, arr)
                return [r]
        if k == "list":
            if isinstance(v, Val) and v.T[0] == "list":
                return [v.t]
            if isinstance(v, LList):
                raise Unsupported("storing a local list in the heap")
        raise Unsupported("cannot store %r as %s" % (v, tname(T)))

    _boxf = {}

    def box(self, v, st=None):
        if isinstance(v, LDict) and st is not None:
            T = st.dicts[v.id]["T"] or DOBJ
            v = Val(T, self.heapify_dict(st, v, T))
        if isinstance(v, Val):
            if v.T in OBJS:
                return v.t
            s = v.t.sort()
            f = self._boxf.setdefault(s.name(), z3.Function("box_" + s.name(), s, Obj))
            return f(v.t)
        if v is NONE:
            return Const("None_obj", Obj)
        if isinstance(v, (Func, Bound, Bi, Cl)):
            if isinstance(v, Func) and v.self_ is None and v.fid is None:
                return Const("fun_%s_%s" % (v.module, v.name), Obj)
            if isinstance(v, Bi):
                return Const("builtin_%s" % v.name, Obj)
            return fresh("fun", Obj)
        if isinstance(v, (Inst, LDict, LList, LSet, Tup, Kids)):
            return fresh("objv", Obj)
        raise Unsupported("box %r" % (v,))

    # collections in the heap
    def dict_keys(self, T):
        K, V = T[1], T[2]
        n = tname(T)
        out = [("%s.dom" % n, z3.ArraySort(SORT[K] if isinstance(K, str) else Ref, z3.BoolSort()))]
        for i, s in enumerate(flat(V)):
            out.append(("%s.val%d" % (n, i), z3.ArraySort(SORT[K] if isinstance(K, str) else Ref, s)))
        return out

    def dict_arrays(self, st, d):
        return [Select(self.harr(st, k, s), d.t) for k, s in self.dict_keys(d.T)]

    def set_dict_arrays(self, st, d, arrs):
        for (k, s), a in zip(self.dict_keys(d.T), arrs):
            if k in st.frozen:
                raise NotSummarisable(k)
            st.heap[k] = Store(self.harr(st, k, s), d.t, a)

    def set_items(self, st, v):
        T = v.T
        key = "%s.items" % tname(T)
        return Select(self.harr(st, key, z3.ArraySort(SORT[T[1]], z3.BoolSort())), v.t)

    def list_src(self, st, v):
        T = v.T
        n = tname(T)
        ln = Select(self.harr(st, n + ".len", z3.IntSort()), v.t)
        arrs = [Select(self.harr(st, "%s.el%d" % (n, i), z3.ArraySort(z3.IntSort(), s)), v.t)
                for i, s in enumerate(flat(T[1]))]

        def elem(st2, i):
            return self.unpack(st2, T[1], [Select(a, i) for a in arrs])
        return Src("list", tuple([ln] + arrs), z3.IntSort(), lambda i: And(i >= 0, i < ln), elem)

    def dict_src(self, st, d, what="items"):
        arrs = self.dict_arrays(st, d)
        K, V = d.T[1], d.T[2]

        def elem(st2, k):
            kv = Val(K, k)
            if what == "keys":
                return [(st2, kv)]
            res = self.unpack(st2, V, [Select(a, k) for a in arrs[1:]])
            if what == "values":
                return res
            return [(s3, Tup([kv, v])) for s3, v in res]
        return Src("dict", tuple(arrs), SORT[K], lambda k: Select(arrs[0], k), elem)

    def kids_term(self, st, d):
        """What node.children of d contains."""
        KS = z3.ArraySort(S, Ref)
        if self.kids_mode == "phys":
            return Select(self.harr(st, "N.pk", KS), d)
        lk = Select(self.harr(st, "N.kids", KS), d)
        pk = Select(self.harr(st, "N.pk", KS), d)
        ld = Select(self.harr(st, "N._loaded", z3.BoolSort()), d)
        return If(ld, lk, pk)

    def event(self, st, *ev):
        """Remembers an update of the tree, for the lemmas about paths and lookups."""
        if ev[0] == "N.kids":
            ev = ev + (self.harr(st, "N.parent", Ref), self.harr(st, "N.name", S))
        st.ghost["ev"] = st.ghost.get("ev", ()) + (ev,)

    def set_loaded(self, st, d, t):
        """The entries of an unloaded directory are those it will have once loaded: marking it loaded by hand
        makes them what is there now, marking it unloaded makes them unknown."""
        KS = z3.ArraySort(S, Ref)
        a = self.harr(st, "N.kids", KS)
        pk = Select(self.harr(st, "N.pk", KS), d)
        ld = Select(self.harr(st, "N._loaded", z3.BoolSort()), d)
        if d.decl().name().startswith("new_") and conc_bool(ld) is None:
            return      # the constructor: children is assigned next
        there = If(ld, Select(a, d), pk)
        x = z3.Const("x", S)        # by definition: loading keeps the entries that are there
        st.assume(Or(ld, z3.ForAll([x], Or(Select(pk, x) == null, Select(pk, x) == Select(Select(a, d), x)), patterns=[Select(pk, x)])))
        if conc_bool(t) is True:
            new = self.atom(st, there)
        else:
            new = self.atom(st, If(t, there, self.reprovide(st, d, self.atom(st, there))))
        if "N.kids" in st.frozen:
            raise NotSummarisable("N.kids")
        st.heap["N.kids"] = Store(a, d, new)
        self.event(st, "N.kids", a, d, None, new)

    def reprovide(self, st, d, base):
        """The entries directory d will have once its loader has run: those there now, and new nodes."""
        from . import inv
        from .contract import NEWNODES, new_kinds
        self.assumed.add("the entries a directory provider gives have legal names")
        old, self_new = st.alloc, fresh("alloc", st.alloc.sort())
        if "alloc" in st.frozen:
            raise NotSummarisable("alloc")
        r, n, x = z3.Const("r", Ref), z3.Const("n", Ref), z3.Const("x", S)
        m = fresh("provided", z3.ArraySort(S, Ref))
        st.alloc = self_new
        st.assume(z3.ForAll([r], z3.Implies(Select(old, r), Select(self_new, r)), patterns=[Select(self_new, r), Select(old, r)]),
                  Not(Select(self_new, null)), new_kinds(old, self_new, NEWNODES))
        isnew = lambda t: And(Select(self_new, t), Not(Select(old, t)))
        K, Pa, Na = [self.harr(st, k, srt) for k, srt in (("N.kids", m.sort()), ("N.parent", Ref), ("N.name", S))]
        while z3.is_store(K):       # at objects that existed before, never at new ones
            K = K.arg(0)
        k, kk = Select(m, x), Select(Select(K, n), x)
        st.assume(
            z3.ForAll([x], If(Select(base, x) != null, k == Select(base, x),
                              Or(k == null, And(isnew(k), L.isnode(k), Select(Pa, k) == d, Select(Na, k) == x))), patterns=[k]),
            z3.ForAll([n, x], z3.Implies(And(isnew(n), L.isdir(n), kk != null),
                                         And(isnew(kk), L.isnode(kk), Select(Pa, kk) == n, Select(Na, kk) == x)), patterns=[kk]),
            z3.ForAll([n], z3.Implies(And(isnew(n), L.isnode(n)),
                                      And(Select(Pa, n) != null, L.clean(Select(Na, n)), Select(Na, n) != lit(".."),
                                          L.isdir(Select(Pa, n)), Select(self_new, Select(Pa, n)), L.rooted(Pa, n))),
                      patterns=[Select(Pa, n), Select(Na, n), L.rooted(Pa, n)]))
        return m

    def set_kids(self, st, d, arr, key=None, val=None):
        """children := arr, or children[key] := val."""
        KS = z3.ArraySort(S, Ref)
        ld = Select(self.harr(st, "N._loaded", z3.BoolSort()), d)
        for k in ("N.pk", "N.kids"):
            if k in st.frozen:
                raise NotSummarisable(k)
            if self.kids_mode == "phys" and k == "N.kids":
                continue
            a = self.harr(st, k, KS)
            if key is not None:
                if k == "N.kids" and val.eq(null):
                    # an entry taken out of an unloaded directory may be provided again
                    val = If(ld, null, fresh("reprovided", Ref))
                    val = self.atom(st, val)
                key = self.atom(st, key)
                cur = Store(Select(a, d), key, val)
            else:
                cur = arr if k == "N.pk" or conc_bool(ld) is True else self.atom(st, If(ld, arr, self.reprovide(st, d, arr)))
            st.heap[k] = Store(a, d, cur)
            if k == "N.kids":
                self.event(st, k, a, d, key, val if key is not None else cur)

    def kids_src(self, st, d, what):
        arr = self.atom(st, self.kids_term(st, d))

        def elem(st2, x):
            c = ref("VirtualNode", Select(arr, x))
            if what == "values":
                return [(st2, c)]
            if what == "keys":
                return [(st2, vstr(x))]
            return [(st2, Tup([vstr(x), c]))]
        return Src("kids", (arr,), S, lambda x: Select(arr, x) != null, elem)

    def alloc(self, st, cls):
        r = fresh("new_" + (cls or "obj"), Ref)
        if st.alloc is None:
            st.alloc = Const("alloc@0", z3.ArraySort(Ref, z3.BoolSort()))
        st.assume(r != null, Not(Select(st.alloc, r)))
        st.assume(L.clsof(r) == L.cls_id(cls or "<collection>"))
        plain = self.fam(cls) not in ("N", "V") and st.ghost.get("inv") is not None
        if plain:
            from . import inv
            plain = st.ghost["inv"] == inv.T(self, st).ident()
        st.alloc = Store(st.alloc, r, TRUE)
        if plain:           # the invariant only speaks about nodes and filesystems
            st.ghost["inv"] = inv.T(self, st).ident()
        return r

    def heapify_dict(self, st, v, T):
        items = self.ditems(st, v.id, T)
        d = st.dicts[v.id]
        if d.get("ref") is not None:
            return d["ref"].t
        r = self.alloc(st, None)
        dv = Val(T, r)
        ks = self.dict_keys(T)
        if d["base"] is not None:
            arrs = list(d["base"])
        else:
            arrs = [z3.K(ks[0][1].domain(), FALSE)] + [fresh("dc", s) for _, s in ks[1:]]
        for k, x in items:
            kt = self.pack(st, T[1], k)[0]
            arrs[0] = Store(arrs[0], kt, TRUE)
            for i, t in enumerate(self.pack(st, T[2], x)):
                arrs[i + 1] = Store(arrs[i + 1], kt, t)
        self.set_dict_arrays(st, dv, arrs)
        st.dicts[v.id] = dict(d, ref=dv)
        return r

    def key_sort(self, key):
        from .contract import key_sort
        return key_sort(self, key)

    def ditems(self, st, i, T=None):
        """The entries of a local dict added to its base, in order."""
        if ("d", i) in st.frozen:
            raise NotSummarisable("dict")
        d = st.dicts[i]
        cs = st.lists[("d", i)]
        if all(isinstance(c, Item) for c in cs):
            return [tuple(c.v.items) for c in cs]
        # entries added by a loop: settle the contents
        T = d["T"] or T
        if T is None:
            for c in cs:
                for it in ([c] if isinstance(c, Item) else [x for _, ch in c.alts for x in ch] if isinstance(c, Comp) else []):
                    if isinstance(it, Item) and T is None and all(isinstance(y, Val) for y in it.v.items):
                        T = ("dict", it.v.items[0].T, it.v.items[1].T)
            T = T or DOBJ
        ks = self.dict_keys(T)
        arrs = list(d["base"]) if d["base"] is not None else \
            [z3.K(ks[0][1].domain(), FALSE)] + [fresh("dc", s) for _, s in ks[1:]]
        for c in cs:
            if isinstance(c, Item):
                kt = self.pack(st, T[1], c.v.items[0])[0]
                arrs[0] = Store(arrs[0], kt, TRUE)
                for j, t in enumerate(self.pack(st, T[2], c.v.items[1])):
                    arrs[j + 1] = Store(arrs[j + 1], kt, t)
            elif isinstance(c, Comp):
                arrs = self.merge_arrays(st, arrs, self.comp_arrays(st, c, T))
            else:       # entries nothing is known about
                st.imprecise = True
                arrs = [fresh("some", a.sort()) for a in arrs]
        st.dicts[i] = dict(d, base=tuple(arrs), T=T)
        st.lists[("d", i)] = []
        return []

    def heapify_comp(self, st, v, T):
        """A dictionary given by a comprehension."""
        if len(v.chunks) != 1 or not isinstance(v.chunks[0], Comp):
            raise Unsupported("dictionary of this form")
        arrs = self.comp_arrays(st, v.chunks[0], T)
        r = self.alloc(st, None)
        self.set_dict_arrays(st, Val(T, r), arrs)
        return r

    def comp_arrays(self, st, c, T):
        ks = self.dict_keys(T)
        arrs = [fresh("dict", s) for _, s in ks]
        KS = ks[0][1].domain()
        k = z3.Const("k", KS)
        mem = c.src.member(c.idx)
        alts = []
        for cond, ch in c.alts:
            if len(ch) != 1 or not isinstance(ch[0], Item):
                raise Unsupported("dictionary of this form")
            kv, vv = ch[0].v.items
            alts.append((cond, self.pack(st, T[1], kv)[0], self.pack(st, T[2], vv)))
        from .loops import _fresh_consts
        acc = {}
        for cond, kt, ts in alts:           # what an iteration does not determine differs from element to element
            for t in [cond, kt] + list(ts):
                _fresh_consts(t, int(str(c.idx).split("!")[-1]), acc)
        m = [(x, z3.Function("sk_%s_%s" % (x, arrs[0]), c.idx.sort(), x.sort())(c.idx)) for x in acc.values() if not x.eq(c.idx)]
        sub = lambda t: z3.substitute(t, m)
        alts = [(sub(cond), sub(kt), [sub(t) for t in ts]) for cond, kt, ts in alts]
        same = all(kt.eq(c.idx) for _, kt, _ in alts)
        at = (lambda t: z3.substitute(t, [(c.idx, k)])) if same else None
        if not same:
            w = z3.Function(str(fresh("key_of", KS)), KS, c.src.sort)
            at = lambda t: z3.substitute(t, [(c.idx, w(k))])
            st.assume(L.forall_idx(c.idx, mem, And([Implies(cond, Select(arrs[0], kt)) for cond, kt, _ in alts])))
        st.assume(ForAll([k], Implies(Select(arrs[0], k), And(at(mem), Or([And(
            [at(cond), at(kt) == k] + [Select(a, k) == at(t) for a, t in zip(arrs[1:], ts)]) for cond, kt, ts in alts]))),
            patterns=[Select(a, k) for a in arrs]))
        if same:
            full = Or([at(cond) for cond, _, _ in alts])
            st.assume(ForAll([k], Select(arrs[0], k) == And(at(mem), full), patterns=[Select(arrs[0], k), at(mem)]))
        return arrs

    # ------------------------------------------------------------------ truth, equality
    def truth(self, st, v):
        if v is NONE:
            return FALSE
        if isinstance(v, Val):
            T = v.T
            if T == "bool":
                return v.t
            if T == "int":
                return v.t != 0
            if T == "str":
                return v.t != lit("")
            if T == "bytes":
                return v.t != lit("")
            if T in ("path", "hpath") or T in FUNS:
                return TRUE
            if T == "obj":
                if is_rx(v.t):
                    return TRUE
                return z3.Function("otruth", Obj, z3.BoolSort())(v.t)
            if T == "real":
                return v.t != 0
            if T[0] == "ref":
                return TRUE
            if T[0] == "set":
                return self.set_items(st, v) != z3.K(SORT[T[1]], FALSE)
            if T[0] == "list":
                return self.list_src(st, v).ident[0] > 0
            if T[0] == "dict":
                a = self.dict_arrays(st, v)[0]
                return a != z3.K(a.sort().domain(), FALSE)
        if isinstance(v, Tup):
            return BoolVal(bool(v.items))
        if isinstance(v, LSet):
            return BoolVal(bool(v.items))
        if isinstance(v, LList):
            return self.chunks_nonempty(self.chunks(st, v))
        if isinstance(v, SeqV):
            return self.chunks_nonempty(v.chunks)
        if isinstance(v, Kids):
            return self.kids_term(st, v.d) != z3.K(S, null)
        if isinstance(v, LDict):
            d = st.dicts[v.id]
            if d.get("ref") is not None:
                return self.truth(st, d["ref"])
            if self.ditems(st, v.id):
                return TRUE
            d = st.dicts[v.id]
            if d["base"] is None:
                return FALSE
            a = d["base"][0]
            return a != z3.K(a.sort().domain(), FALSE)
        if isinstance(v, (Inst, Func, Bound, Cl, Bi, Ex)):
            return TRUE
        if isinstance(v, Lines):
            return L.nlines(v.s.t) > 0
        raise Unsupported("truth of %r" % (v,))

    def chunks(self, st, v):
        if v.id in st.frozen:
            raise NotSummarisable("list read in loop")
        return st.lists[v.id]

    def chunks_nonempty(self, chunks):
        alts = []
        for c in chunks:
            if isinstance(c, Item):
                return TRUE
            if isinstance(c, SLs):
                alts.append(L.is_Snoc(c.t))
            elif isinstance(c, Comp):
                inner = Or([And(k, self.chunks_nonempty(ch)) for k, ch in c.alts] or [FALSE])
                if not L.only_depends(inner, c.idx):
                    raise Unsupported("emptiness of a dependent sequence")
                alts.append(Exists([c.idx], And(c.src.member(c.idx), inner)))
            else:
                alts.append(fresh("nonempty", z3.BoolSort()))
        return Or(alts) if alts else FALSE

    def eq(self, st, a, b):
        if a is NONE or b is NONE:
            if a is b:
                return TRUE
            o = b if a is NONE else a
            if isinstance(o, Val) and o.T == "obj":
                return FALSE if is_rx(o.t) else o.t == Const("None_obj", Obj)
            return FALSE
        if isinstance(a, Val) and isinstance(b, Val):
            if a.T == b.T or (isref(a.T) and isref(b.T)):
                if isref(a.T) and a.T[0] != "ref":
                    raise Unsupported("collection equality")
                return a.t == b.t
            if {a.T, b.T} <= set(OBJS):
                return a.t == b.t
            if "obj" in (a.T, b.T):
                return self.box(a) == self.box(b)
            if {a.T, b.T} == {"int", "bool"}:
                i, k = (a, b) if a.T == "int" else (b, a)
                return i.t == If(k.t, IntVal(1), IntVal(0))
            if isinstance(a.T, str) and isinstance(b.T, str):
                return FALSE
            return FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return And([self.eq(st, x, y) for x, y in zip(a.items, b.items)] or [TRUE])
        if isinstance(a, LList) and isinstance(b, LList):
            ca, cb = self.chunks(st, a), self.chunks(st, b)
            if all(isinstance(c, Item) for c in ca + cb):
                if len(ca) != len(cb):
                    return FALSE
                return And([self.eq(st, x.v, y.v) for x, y in zip(ca, cb)] or [TRUE])
            return fresh("listeq", z3.BoolSort())
        if isinstance(a, (LList, Val)) and isinstance(b, (LList, Val)):
            return fresh("seqeq", z3.BoolSort())
        if isinstance(a, Inst) and isinstance(b, Inst) and a.id == b.id:
            return TRUE
        if isinstance(a, Cl) and isinstance(b, Cl):
            return BoolVal(a.name == b.name)
        raise Unsupported("equality of %r and %r" % (a, b))

    # ------------------------------------------------------------------ expression evaluation
    def evs(self, es, st, fid):
        """Evaluate a list of expressions left to right: [(st, [values] | Raise)]."""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                for s2, v in self.ev(e, s, fid):
                    nxt.append((s2, v if isinstance(v, Raise) else acc + [v]))
            res = nxt
        return res

    def bind(self, res, f):
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out += f(s, v)
        return out

    def ev(self, e, st, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        v = e.value
        if v is None:
            return [(st, NONE)]
        if isinstance(v, bool):
            return [(st, vbool(v))]
        if isinstance(v, int):
            return [(st, vint(v))]
        if isinstance(v, str):
            return [(st, vstr(v))]
        if isinstance(v, float):
            return [(st, Val("real", z3.RealVal(v)))]
        if v is Ellipsis:
            return [(st, NONE)]
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, e, st, fid):
        f = fid
        while f is not None:
            env = st.envs[f]
            if e.id in env:
                v = env[e.id]
                if v is None:
                    raise Unsupported("unbound local %s" % e.id)
                if isinstance(v, LList) and v.id in st.frozen:
                    return [(st, v)]
                return [(st, v)]
            f = env.get("@closure")
        return [(st, self.global_name(e.id, st.envs[fid]["@module"]))]

    def global_name(self, name, module):
        hit = self.prog.names.get(module, {}).get(name)
        if hit is None:
            if name in self.prog.classes and module is None:
                return Cl(name)
            if name in BUILTIN_EXC:
                return Cl(name)
            return Bi(name)
        if hit[0] == "class":
            return Cl(hit[1])
        if hit[0] == "func":
            return Func(self.prog.funcs[(hit[1], hit[2])], hit[1])
        if hit[0] == "module":
            return Mod(hit[1])
        if hit[0] == "from":
            _, mod, nm, level = hit
            if level and mod in self.prog.names:
                return self.global_name(nm, mod)
            if nm in ("PurePosixPath", "Path"):
                return Cl(nm)
            return Mod(mod + "." + nm) if mod else Mod(nm)
        if hit[0] == "const":
            return ("const", hit[1], hit[2], name) and self.module_const(hit[1], name, hit[2])
        raise Unsupported("name %s" % name)

    def module_const(self, module, name, node):
        if isinstance(node, ast.Constant):
            return self.e_Constant(node, None, None)[0][1]
        if isinstance(node, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) for x in node.elts):
            return Tup([self.e_Constant(x, None, None)[0][1] for x in node.elts])
        if isinstance(node, (ast.Set,)) and all(isinstance(x, ast.Constant) for x in node.elts):
            return LSet([self.e_Constant(x, None, None)[0][1] for x in node.elts])
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in (
                "frozenset", "set", "tuple") and len(node.args) == 1 and isinstance(
                node.args[0], (ast.Set, ast.Tuple, ast.List)):
            return self.module_const(module, name, ast.Set(elts=node.args[0].elts))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "PurePosixPath" \
                and len(node.args) == 1 and isinstance(node.args[0], ast.Constant):
            return self.to_path(vstr(node.args[0].value))
        if isinstance(node, ast.Dict):
            return Val(DOBJ, Const("mod_%s_%s" % (module, name), Ref))
        return Val("obj", Const("const_%s_%s" % (module, name), Obj))

    def e_Attribute(self, e, st, fid):
        return self.bind(self.ev(e.value, st, fid), lambda s, v: self.attr(s, v, e.attr))

    def attr(self, st, v, name):
        if isinstance(v, Val):
            T = v.T
            if not isinstance(T, str) and T[0] == "ref":
                cls = T[1]
                ft = self.ftype(cls, name)
                if ft is not None:
                    if self.fam(cls) == "N" and name in self.schema["N"].get("file_only", ()):
                        if name == "_content":
                            self.site(st, "text", v)
                        return self.guard_cls(st, v, "VirtualFile", lambda s: self.get(s, v.t, cls, name))
                    if self.fam(cls) == "N" and name in self.schema["N"].get("dir_only", ()):
                        return self.guard_cls(st, v, "VirtualDirectory", lambda s: self.get(s, v.t, cls, name))
                    if self.fam(cls) == "N" and name == "name":
                        self.site(st, "name", v)
                    return self.get(st, v.t, cls, name)
                if self.fam(cls) == "N":
                    return self.node_method(st, v, name)
                hit = self.prog.find_method(cls, name)
                if hit is not None:
                    return self.method_value(st, v, hit, name)
                return self.unknown_attr(st, v, cls, name)
            if T == "path":
                p = v.t
                if name == "parts":
                    return [(st, Bound(v, "parts"))]
                if name == "parent":
                    return [(st, vpath(If(L.is_Snoc(L.segs(p)), L.P(L.anchor(p), L.init(L.segs(p))), p)))]
                if name == "name":
                    return [(st, vstr(If(L.is_Snoc(L.segs(p)), L.last(L.segs(p)), lit(""))))]
                return [(st, Bound(v, name))]
            if T == "hpath" and name == "parent":
                return [(st, Val("hpath", z3.Function("hparent", Obj, Obj)(v.t)))]
            if T == "hpath" and name in ("name", "suffix", "stem"):
                return [(st, Val("str", z3.Function("h" + name, Obj, S)(v.t)))]
            if T == "obj" and name.startswith("st_"):
                return [(st, vint(z3.Function("ostat_" + name, Obj, z3.IntSort())(v.t)))]
            return [(st, Bound(v, name))]
        if isinstance(v, Inst):
            f = st.insts[v.id]
            if name in f:
                return [(st, f[name])]
            hit = self.prog.find_method(v.cls, name)
            if hit is not None:
                return self.method_value(st, v, hit, name)
            raise Unsupported("attribute %s of %s" % (name, v.cls))
        if isinstance(v, Mod):
            if v.name == "re" and name in ("IGNORECASE", "I", "MULTILINE", "M"):
                return [(st, vint(2 if name[0] == "I" else 8))]
            if name.isupper():
                return [(st, vint(Const("%s.%s" % (v.name, name), z3.IntSort())))]
            return [(st, Mod(v.name + "." + name))]
        if isinstance(v, Cl):
            if v.name in self.prog.classes:
                hit = self.prog.find_method(v.name, name)
                if hit is not None:
                    return [(st, Func(hit[1], self.prog.classes[hit[0]].module, cls=hit[0]))]
            return [(st, Bound(v, name))]
        if isinstance(v, (LList, LDict, LSet, Kids, Tup, SeqV, Lines, Bi, Bound, Func)):
            return [(st, Bound(v, name))]
        if isinstance(v, Ex):
            return [(st, Val("obj", fresh("excattr", Obj)))]
        if v is NONE:
            return [(st, Raise(Ex("AttributeError")))]
        raise Unsupported("attribute %s of %r" % (name, v))

    def unknown_attr(self, st, v, cls, name):
        raise Unsupported("attribute %s of %s" % (name, cls))

    def guard_cls(self, st, v, cls, f):
        out = []
        for s, b in self.branch(st, L.clsof(v.t) == L.cls_id(cls)):
            if b:
                out += f(s)
            else:
                out.append((s, Raise(Ex("AttributeError"))))
        return out

    def node_method(self, st, v, name):
        """Method of a tree node, dispatching on its class."""
        fh = self.prog.find_method("VirtualFile", name)
        dh = self.prog.find_method("VirtualDirectory", name)
        if fh is None and dh is None:
            raise Unsupported("attribute %s of a node" % name)
        if fh is not None and dh is not None and fh[0] == dh[0]:
            return self.method_value(st, v, fh, name)
        out = []
        for s, b in self.branch(st, L.isfile(v.t)):
            hit = fh if b else dh
            if hit is None:
                out.append((s, Raise(Ex("AttributeError"))))
            else:
                out += self.method_value(s, v, hit, name)
        return out

    def method_value(self, st, v, hit, name):
        cls, node = hit
        decos = [d.id if isinstance(d, ast.Name) else getattr(d, "attr", "") for d in node.decorator_list]
        f = Func(node, self.prog.classes[cls].module, self_=v, cls=cls)
        if "staticmethod" in decos:
            f.self_ = None
        if "property" in decos:
            return self.call(st, f, [], {})
        return [(st, f)]

    def e_Call(self, e, st, fid):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            env = st.envs[fid]
            return [(st, Bound(Tup([env["@self"], Cl(env["@cls"])]), "super"))]
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) \
                and e.func.id not in st.envs[fid]:
            return self.any_all(e, st, fid)
        out = []
        for s, fv in self.ev(e.func, st, fid):
            if isinstance(fv, Raise):
                out.append((s, fv))
                continue
            out += self.bind(self.call_args(e, s, fid), lambda s2, ak: self.call(s2, fv, ak[0], ak[1], e))
        return out

    def call_args(self, e, st, fid):
        """[(st, (args, kwargs) | Raise)]"""
        res = [(st, ([], {}))]
        for a in e.args:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                star = isinstance(a, ast.Starred)
                for s2, v in self.ev(a.value if star else a, s, fid):
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                    elif star:
                        items = self.concrete_items(s2, v)
                        if items is None:
                            nxt.append((s2, (acc[0] + [("star", v)], acc[1])))
                        else:
                            nxt.append((s2, (acc[0] + items, acc[1])))
                    else:
                        nxt.append((s2, (acc[0] + [v], acc[1])))
            res = nxt
        for k in e.keywords:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                for s2, v in self.ev(k.value, s, fid):
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                    elif k.arg is None:
                        if isinstance(v, LDict) and s2.dicts[v.id]["base"] is None:
                            kw = dict(acc[1])
                            for kk, vv in self.ditems(s2, v.id):
                                kw[lit_of(kk.t)] = vv
                            nxt.append((s2, (acc[0], kw)))
                        else:
                            raise Unsupported("** argument")
                    else:
                        nxt.append((s2, (acc[0], dict(acc[1], **{k.arg: v}))))
            res = nxt
        return res

    def e_BinOp(self, e, st, fid):
        def f(s, vs):
            return self.binop(s, type(e.op).__name__, vs[0], vs[1])
        return self.bind(self.evs([e.left, e.right], st, fid), f)

    def binop(self, st, op, a, b):
        isd = lambda v: isinstance(v, LDict) or isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "dict"
        if op == "BitOr" and isd(a) and isd(b):
            return self.bind(self.b_dict(st, [a], {}), lambda s, d: [
                (s2, x if isinstance(x, Raise) else d) for s2, x in self.call_method(s, Bound(d, "update"), [b], {})])
        if isinstance(a, Val) and isinstance(b, Val):
            if {a.T, b.T} == {"int", "bool"} or a.T == b.T == "bool" and op in ("Add", "Sub", "Mult"):
                a, b = [vint(If(v.t, IntVal(1), IntVal(0))) if v.T == "bool" else v for v in (a, b)]
            if a.T == "int" and b.T == "int":
                if op == "Add":
                    return [(st, vint(a.t + b.t))]
                if op == "Sub":
                    return [(st, vint(a.t - b.t))]
                if op == "Mult":
                    return [(st, vint(a.t * b.t))]
                if op in ("BitOr", "BitAnd"):
                    ia, ib = simp(a.t), simp(b.t)
                    if z3.is_int_value(ia) and z3.is_int_value(ib):
                        na, nb = ia.as_long(), ib.as_long()
                        return [(st, vint(na | nb if op == "BitOr" else na & nb))]
                    return [(st, vint(z3.Function("int" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())(a.t, b.t)))]
                return [(st, vint(fresh("int" + op, z3.IntSort())))]
            if a.T == "str" and b.T == "str" and op == "Add":
                return [(st, self.concat(a, b))]
            if a.T == "str" and op == "Mod":
                return [(st, Val("str", fresh("fmt", S), labs(a, b))), (st.copy(), Raise(Ex("TypeError")))]
            if op == "BitAnd" and not isinstance(a.T, str) and a.T[0] == "set" and b.T[0] == "set":
                T = a.T
                r = self.alloc(st, None)
                key = "%s.items" % tname(T)
                arr = z3.Map(L.AND_DECL, self.set_items(st, a), self.set_items(st, b))
                st.heap[key] = Store(self.harr(st, key, z3.ArraySort(SORT[T[1]], z3.BoolSort())), r, arr)
                return [(st, Val(T, r))]
            if op == "Div" and a.T == "hpath":
                return [(st, Val("hpath", L.hjoin(a.t, self.box(b))))]
            if op == "Div" and a.T == "path":
                return [(st, self.joinpath(a, self.to_path(b)))]
            if "obj" in (a.T, b.T):
                return [(st, Val("obj", fresh("binop", Obj), labs(a, b)))]
        if op == "Add" and isinstance(a, LList) and isinstance(b, (LList, Val, SeqV)):
            cs = list(self.chunks(st, a)) + list(self.iter_chunks(st, b))
            return [(st, self.new_list(st, cs))]
        if op == "Add" and isinstance(a, LList):
            return [(st, self.new_list(st, list(self.chunks(st, a)) + self.iter_chunks(st, b)))]
        if op == "Add" and isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(a.items + b.items))]
        if op == "Mod" and isinstance(a, Val) and a.T == "str":
            return [(st, Val("str", fresh("fmt", S), labs(a, b))), (st.copy(), Raise(Ex("TypeError")))]
        raise Unsupported("operator %s on %r, %r" % (op, a, b))

    def concat(self, a, b):
        la, lb = lit_of(a.t), lit_of(b.t)
        if la is not None and lb is not None:
            return vstr(la + lb)
        if la == "":
            return Val("str", b.t, labs(a, b))
        if lb == "":
            return Val("str", a.t, labs(a, b))
        return Val("str", L.scat(a.t, b.t), labs(a, b))

    def new_list(self, st, chunks):
        i = self.nid()
        st.lists[i] = list(chunks)
        return LList(i)

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            out = []
            for s2, v in self.ev(e.values[i], s, fid):
                if isinstance(v, Raise) or i == len(e.values) - 1:
                    out.append((s2, v))
                    continue
                for s3, b in self.branch(s2, self.truth(s2, v)):
                    if b == isand:
                        out += go(i + 1, s3)
                    else:
                        out.append((s3, v))
            return out
        return go(0, st)

    def e_UnaryOp(self, e, st, fid):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                return [(s, vbool(Not(self.truth(s, v))))]
            if isinstance(e.op, ast.USub) and isinstance(v, Val) and v.T == "int":
                return [(s, vint(-v.t))]
            raise Unsupported("unary operator")
        return self.bind(self.ev(e.operand, st, fid), f)

    def e_Compare(self, e, st, fid):
        def f(s, vs):
            terms = []
            for op, a, b in zip(e.ops, vs, vs[1:]):
                terms.append(self.compare(s, op, a, b))
            return [(s, vbool(And(terms) if len(terms) > 1 else terms[0]))]
        return self.bind(self.evs([e.left] + e.comparators, st, fid), f)

    def compare(self, st, op, a, b):
        o = type(op).__name__
        if o == "Eq":
            return self.eq(st, a, b)
        if o == "NotEq":
            return Not(self.eq(st, a, b))
        if o in ("Is", "IsNot"):
            if a is NONE or b is NONE:
                t = BoolVal(a is b)
                for x in (a, b):
                    if isinstance(x, Val) and x.T == "obj":
                        t = FALSE if is_rx(x.t) else x.t == Const("None_obj", Obj)
            elif isinstance(a, Val) and isinstance(b, Val) and isref(a.T) and isref(b.T):
                t = a.t == b.t
            elif isinstance(a, Val) and isinstance(b, Val) and a.T == b.T == "bool":
                t = a.t == b.t
            elif isinstance(a, Val) and isinstance(b, Val) and a.T == b.T and a.T in OBJS:
                t = a.t == b.t
            elif isinstance(a, Inst) and isinstance(b, Inst):
                t = BoolVal(a.id == b.id)
            elif type(a) is not type(b):
                t = FALSE
            else:
                t = fresh("is", z3.BoolSort())
            return t if o == "Is" else Not(t)
        if o in ("In", "NotIn"):
            t = self.contains(st, a, b)
            return t if o == "In" else Not(t)
        if isinstance(a, Val) and isinstance(b, Val) and a.T in ("int", "real") and b.T in ("int", "real"):
            return {"Lt": a.t < b.t, "LtE": a.t <= b.t, "Gt": a.t > b.t, "GtE": a.t >= b.t}[o]
        return fresh("cmp", z3.BoolSort())

    def contains(self, st, x, c):
        if isinstance(c, (Tup, LSet)):
            return Or([self.eq(st, x, i) for i in c.items] or [FALSE])
        if isinstance(c, LList):
            cs = self.chunks(st, c)
            if all(isinstance(k, Item) for k in cs):
                return Or([self.eq(st, x, k.v) for k in cs] or [FALSE])
            return fresh("inlist", z3.BoolSort())
        if isinstance(c, Kids):
            if isinstance(x, Val) and x.T == "str":
                return Select(self.kids_term(st, c.d), x.t) != null
        if isinstance(c, Val):
            if c.T == "str" and isinstance(x, Val) and x.T == "str":
                return L.contains(c.t, x.t)
            if not isinstance(c.T, str):
                if c.T[0] == "set":
                    return Select(self.set_items(st, c), self.pack(st, c.T[1], x)[0])
                if c.T[0] == "dict":
                    return Select(self.dict_arrays(st, c)[0], self.pack(st, c.T[1], x)[0])
                if c.T[0] == "list":
                    return fresh("inlist", z3.BoolSort())
            if c.T == "obj":
                return fresh("in", z3.BoolSort())
        if isinstance(c, LDict):
            d = st.dicts[c.id]
            if d.get("ref") is not None:
                return self.contains(st, x, d["ref"])
            alts = [self.eq(st, x, k) for k, _ in self.ditems(st, c.id)]
            d = st.dicts[c.id]
            if d["base"] is not None:
                alts.append(Select(d["base"][0], x.t))
            return Or(alts or [FALSE])
        raise Unsupported("membership in %r" % (c,))

    def e_IfExp(self, e, st, fid):
        out = []
        for s, v in self.ev(e.test, st, fid):
            if isinstance(v, Raise):
                out.append((s, v))
                continue
            for s2, b in self.branch(s, self.truth(s, v)):
                out += self.ev(e.body if b else e.orelse, s2, fid)
        return out

    def e_JoinedStr(self, e, st, fid):
        parts = [x for x in e.values]
        es = [x.value for x in parts if isinstance(x, ast.FormattedValue)]

        def f(s, vs):
            it = iter(vs)
            acc, lb = None, ()
            for p in parts:
                if isinstance(p, ast.Constant):
                    v = vstr(p.value)
                else:
                    v = self.to_str(s, next(it), spec=p.format_spec is not None or p.conversion != -1)
                acc = v if acc is None else self.concat(acc, v)
            return [(s, acc if acc is not None else vstr(""))]
        return self.bind(self.evs(es, st, fid), f)

    def to_str(self, st, v, spec=False):
        if spec:
            return Val("str", fresh("fmt", S), labs(v))
        if isinstance(v, Val):
            if v.T == "str":
                return v
            if v.T == "path":
                return Val("str", L.pstr(v.t))
            if v.T == "int":
                c = simp(v.t)
                if z3.is_int_value(c):
                    return vstr(str(c.as_long()))
                return Val("str", L.istr(v.t))
            if v.T == "bool":
                return Val("str", If(v.t, lit("True"), lit("False")))
            if v.T in OBJS:
                return Val("str", L.ostr(v.t), labs(v))
        if v is NONE:
            return vstr("None")
        if isinstance(v, Ex):
            return v.msg if isinstance(v.msg, Val) and v.msg.T == "str" else Val("str", fresh("excstr", S))
        return Val("str", fresh("str", S))

    def to_path(self, v):
        if v.T == "path":
            return v
        if v.T == "str":
            s = lit_of(v.t)
            if s is not None:
                from pathlib import PurePosixPath
                p = PurePosixPath(s)
                t = L.Nil
                for x in p.parts[1 if p.root else 0:]:
                    t = L.Snoc(t, lit(x))
                return vpath(L.P(len(p.root), t))
            return vpath(L.parse(v.t))
        raise Unsupported("path of %r" % (v,))

    def joinpath(self, a, b):
        return vpath(If(L.anchor(b.t) != 0, b.t, L.P(L.anchor(a.t), L.cat(L.segs(a.t), L.segs(b.t)))))

    def e_Tuple(self, e, st, fid):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("star in tuple")
        return self.bind(self.evs(e.elts, st, fid), lambda s, vs: [(s, Tup(vs))])

    def e_List(self, e, st, fid):
        res = [(st, [])]
        for x in e.elts:
            nxt = []
            for s, acc in res:
                if isinstance(acc, Raise):
                    nxt.append((s, acc))
                    continue
                star = isinstance(x, ast.Starred)
                for s2, v in self.ev(x.value if star else x, s, fid):
                    if isinstance(v, Raise):
                        nxt.append((s2, v))
                    elif star:
                        nxt.append((s2, acc + self.iter_chunks(s2, v)))
                    else:
                        nxt.append((s2, acc + [Item(v)]))
            res = nxt
        return [(s, a if isinstance(a, Raise) else self.new_list(s, a)) for s, a in res]

    def e_Set(self, e, st, fid):
        return self.bind(self.evs(e.elts, st, fid), lambda s, vs: [(s, LSet(vs))])

    def e_Dict(self, e, st, fid):
        if any(k is None for k in e.keys):
            # {**a, k: v}: built from left to right
            def g(s, vs):
                res = [(s, self.new_dict(s))]
                n = 0
                for k in e.keys:
                    nxt = []
                    for s2, d in res:
                        if isinstance(d, Raise):
                            nxt.append((s2, d))
                        elif k is None:
                            nxt += [(s3, x if isinstance(x, Raise) else d) for s3, x in self.call_method(s2, Bound(d, "update"), [vs[n]], {})]
                        else:
                            nxt += [(o.st, d) for o in self.setitem(s2, d, vs[n], vs[n + 1])]
                    n += 1 if k is None else 2
                    res = nxt
                return res
            return self.bind(self.evs([x for k, v in zip(e.keys, e.values) for x in ([v] if k is None else [k, v])], st, fid), g)

        def f(s, vs):
            n = len(e.keys)
            return [(s, self.new_dict(s, list(zip(vs[:n], vs[n:]))))]
        return self.bind(self.evs(list(e.keys) + list(e.values), st, fid), f)

    def new_dict(self, st, items=(), base=None, T=None):
        i = self.nid()
        st.dicts[i] = {"base": base, "T": T, "ref": None}
        st.lists[("d", i)] = [x if isinstance(x, (Item, Comp)) else Item(Tup(list(x))) for x in items]
        return LDict(i)

    def e_Lambda(self, e, st, fid):
        return [(st, Func(e, st.envs[fid]["@module"], fid=fid, self_=None))]

    def e_Subscript(self, e, st, fid):
        if isinstance(e.slice, ast.Slice):
            def g(s, v):
                return self.slice(s, v, e.slice, fid)
            return self.bind(self.ev(e.value, st, fid), g)

        def f(s, vs):
            return self.subscript(s, vs[0], vs[1])
        return self.bind(self.evs([e.value, e.slice], st, fid), f)

    def slice(self, st, v, sl, fid):
        es = [x for x in (sl.lower, sl.upper, sl.step) if x is not None]

        def f(s, vs):
            if isinstance(v, Val) and v.T == "str":
                return [(s, Val("str", fresh("sub", S), labs(v)))]
            if isinstance(v, LList):
                cs = self.chunks(s, v)
                if sl.step is None and all(isinstance(c, Item) for c in cs):
                    idx = []
                    it = iter(vs)
                    for x in (sl.lower, sl.upper):
                        if x is None:
                            idx.append(None)
                        else:
                            t = simp(next(it).t)
                            if not z3.is_int_value(t):
                                idx = None
                                break
                            idx.append(t.as_long())
                    if idx is not None:
                        return [(s, self.new_list(s, cs[idx[0]:idx[1]]))]
                return [(s, self.any_list(s, v))]
            if isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "list":
                return [(s, self.any_list(s, v))]
            if isinstance(v, Lines):
                return [(s, Lines(Val("str", fresh("sub", S), labs(v.s)), v.keep))]
            if isinstance(v, Tup) and not vs:
                return [(s, v)]
            raise Unsupported("slice of %r" % (v,))
        return self.bind(self.evs(es, st, fid), f)

    def any_list(self, st, v):
        """Some list whose elements are of the same kind (and carry the same labels)."""
        T = self.elem_type(st, v)
        if T is None:
            raise Unsupported("unknown element type")
        r = fresh("anylist", Ref)
        st.imprecise = st.imprecise
        return Val(("list", T), r, getattr(v, "lab", ()))

    def elem_type(self, st, v):
        if isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "list":
            return v.T[1]
        if isinstance(v, LList):
            ts = set()
            for c in self.chunks(st, v):
                ts.add(self.chunk_type(c))
            if len(ts) == 1:
                return ts.pop()
            if not ts:
                return "str"
        return None

    def chunk_type(self, c):
        if isinstance(c, Item):
            return c.v.T if isinstance(c.v, Val) else None
        if isinstance(c, SLs):
            return "str"
        if isinstance(c, Comp):
            ts = {self.chunk_type(x) for _, ch in c.alts for x in ch}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(c, Part):
            return self.chunk_type(c.comp)
        return None

    def subscript(self, st, v, k):
        if isinstance(v, Kids):
            t = Select(self.kids_term(st, v.d), k.t)
            out = []
            for s, b in self.branch(st, t != null):
                out.append((s, ref("VirtualNode", t)) if b else (s, Raise(Ex("KeyError"))))
            return out
        if isinstance(v, Tup):
            i = simp(k.t)
            if z3.is_int_value(i) and -len(v.items) <= i.as_long() < len(v.items):
                return [(st, v.items[i.as_long()])]
            return [(st, Raise(Ex("IndexError")))]
        if isinstance(v, LList):
            cs = self.chunks(st, v)
            i = simp(k.t) if isinstance(k, Val) and k.T == "int" else None
            if i is not None and z3.is_int_value(i):
                n = i.as_long()
                if all(isinstance(c, Item) for c in cs):
                    if -len(cs) <= n < len(cs):
                        return [(st, cs[n].v)]
                    return [(st, Raise(Ex("IndexError")))]
                if n >= 0 and len(cs) > n and all(isinstance(c, Item) for c in cs[:n + 1]):
                    return [(st, cs[n].v)]
                if len(cs) == 1 and isinstance(cs[0], SLs) and n == -1:
                    out = []
                    for s, b in self.branch(st, L.is_Snoc(cs[0].t)):
                        out.append((s, vstr(L.last(cs[0].t))) if b else (s, Raise(Ex("IndexError"))))
                    return out
            T = self.elem_type(st, v)
            if T is None:
                raise Unsupported("index of a mixed list")
            s2 = st.copy()
            return [(st, Val(T, fresh("elem", SORT[T]) if isinstance(T, str) else fresh("elem", Ref))),
                    (s2, Raise(Ex("IndexError")))]
        if isinstance(v, Val):
            T = v.T
            if T == "str":
                s2 = st.copy()
                return [(st, Val("str", fresh("char", S), labs(v))), (s2, Raise(Ex("IndexError")))]
            if T == "obj":
                s2 = st.copy()
                return [(st, Val("obj", fresh("item", Obj), labs(v))), (s2, Raise(Ex(None)))]
            if not isinstance(T, str) and T[0] == "list":
                src = self.list_src(st, v)
                i = k.t
                ci = simp(i)
                if z3.is_int_value(ci) and ci.as_long() < 0:
                    i = src.ident[0] + i
                out = []
                for s, b in self.branch(st, src.member(i)):
                    if b:
                        out += [(s3, self.add_lab(x, v)) for s3, x in src.elem(s, i)]
                    else:
                        out.append((s, Raise(Ex("IndexError"))))
                return out
            if not isinstance(T, str) and T[0] == "dict":
                arrs = self.dict_arrays(st, v)
                kt = self.pack(st, T[1], k)[0]
                out = []
                for s, b in self.branch(st, Select(arrs[0], kt)):
                    if b:
                        out += self.unpack(s, T[2], [Select(a, kt) for a in arrs[1:]])
                    else:
                        out.append((s, Raise(Ex("KeyError"))))
                return out
        if isinstance(v, LDict):
            d = st.dicts[v.id]
            if d.get("ref") is not None:
                return self.subscript(st, d["ref"], k)
            res = self.ldict_get(st, v, k)
            return [(s, x if x is not None else Raise(Ex("KeyError"))) for s, x in res]
        if isinstance(v, Bound) and v.name == "parts":
            raise Unsupported("index of parts")
        if isinstance(v, (Cl, Mod, Bi)):
            return [(st, v)]        # typing subscript
        raise Unsupported("subscript of %r" % (v,))

    def add_lab(self, x, v):
        l = getattr(v, "lab", ())
        if l and isinstance(x, Val):
            return Val(x.T, x.t, labs(x, v))
        return x

    def ldict_get(self, st, v, k):
        """[(st, value or None)]"""
        items = self.ditems(st, v.id)
        d = st.dicts[v.id]
        out, cur = [], [st]
        for kk, vv in reversed(items):
            nxt = []
            for s in cur:
                for s2, b in self.branch(s, self.eq(s, k, kk)):
                    if b:
                        out.append((s2, vv))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            if d["base"] is None:
                out.append((s, None))
            else:
                for s2, b in self.branch(s, Select(d["base"][0], k.t)):
                    if b:
                        out += self.unpack(s2, d["T"][2], [Select(a, k.t) for a in d["base"][1:]])
                    else:
                        out.append((s2, None))
        return out

    # comprehensions and generator expressions: executed as loops over an accumulator
    def e_ListComp(self, e, st, fid):
        return self.comprehension(e, st, fid, lambda s, i: LList(i))

    def e_GeneratorExp(self, e, st, fid):
        return self.comprehension(e, st, fid, lambda s, i: SeqV(s.lists[i]))

    def e_SetComp(self, e, st, fid):
        return self.comprehension(e, st, fid, lambda s, i: SeqV(s.lists[i], "set"))

    def e_DictComp(self, e, st, fid):
        e2 = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(e2, e)
        ast.copy_location(e2.elt, e)
        return self.comprehension(e2, st, fid, lambda s, i: self.dict_of_chunks(s, s.lists[i]))

    def dict_of_chunks(self, st, chunks):
        i = self.nid()
        d = self.new_dict(st, [])
        if all(isinstance(c, Item) for c in chunks):
            st.lists[("d", d.id)] = list(chunks)
            return d
        # a copy of a dict: {k: v for k, v in d.items()} in normal form
        if len(chunks) == 1 and isinstance(chunks[0], Comp) and chunks[0].src.kind == "dict":
            c = chunks[0]
            if len(c.alts) == 1 and conc_bool(c.alts[0][0]) is True and len(c.alts[0][1]) == 1:
                it = c.alts[0][1][0]
                if isinstance(it, Item) and isinstance(it.v, Tup):
                    k, v = it.v.items
                    return SeqV(chunks, "dict")
        return SeqV(chunks, "dict")

    def comprehension(self, e, st, fid, done):
        acc = self.new_list(st, [])
        name = "@acc%d" % acc.id
        body = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr="append",
                                                    ctx=ast.Load()), args=[e.elt], keywords=[]))
        stmts = [body]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                stmts = [ast.If(test=c, body=stmts, orelse=[])]
            stmts = [ast.For(target=g.target, iter=g.iter, body=stmts, orelse=[])]
        for s in stmts:
            for n in ast.walk(s):
                if not hasattr(n, "lineno"):
                    n.lineno = n.end_lineno = getattr(e, "lineno", 0)
                    n.col_offset = n.end_col_offset = 0
        nf = self.nid()
        st.envs[nf] = {"@module": st.envs[fid]["@module"], "@closure": fid, name: acc,
                       "@self": st.envs[fid].get("@self"), "@cls": st.envs[fid].get("@cls")}
        out = []
        for o in self.ex(stmts, st, nf):
            if o.kind == "next":
                out.append((o.st, done(o.st, acc.id)))
            elif o.kind == "exc":
                out.append((o.st, Raise(o.val)))
            else:
                raise Unsupported("control flow in comprehension")
        return out

    def any_all(self, e, st, fid):
        isany = e.func.id == "any"
        g = e.args[0]
        test = g.elt if isany else ast.UnaryOp(op=ast.Not(), operand=g.elt)
        stmts = [ast.If(test=test, body=[ast.Return(value=ast.Constant(value=isany))], orelse=[])]
        for gg in reversed(g.generators):
            for c in reversed(gg.ifs):
                stmts = [ast.If(test=c, body=stmts, orelse=[])]
            stmts = [ast.For(target=gg.target, iter=gg.iter, body=stmts, orelse=[])]
        for s in stmts:
            for n in ast.walk(s):
                if not hasattr(n, "lineno"):
                    n.lineno = n.end_lineno = e.lineno
                    n.col_offset = n.end_col_offset = 0
        nf = self.nid()
        st.envs[nf] = {"@module": st.envs[fid]["@module"], "@closure": fid,
                       "@self": st.envs[fid].get("@self"), "@cls": st.envs[fid].get("@cls")}
        out = []
        for o in self.ex(stmts, st, nf):
            if o.kind == "next":
                out.append((o.st, vbool(not isany)))
            elif o.kind == "ret":
                out.append((o.st, o.val))
            elif o.kind == "exc":
                out.append((o.st, Raise(o.val)))
            else:
                raise Unsupported("control flow in any/all")
        return out

    def e_Starred(self, e, st, fid):
        raise Unsupported("star")

    def e_NamedExpr(self, e, st, fid):
        def f(s, v):
            s.set(fid, e.target.id, v)
            return [(s, v)]
        return self.bind(self.ev(e.value, st, fid), f)

    def e_Yield(self, e, st, fid):
        raise Unsupported("yield in expression position")

    # ------------------------------------------------------------------ statements
    def ex(self, stmts, st, fid):
        states, done = [st], []
        for s in stmts:
            nxt = []
            for x in states:
                for o in self.ex1(s, x, fid):
                    if o.kind == "next":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            states = nxt
            if not states:
                break
        return done + [Out(x, "next") for x in states]

    def ex1(self, s, st, fid):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(s).__name__, s.lineno))
        return m(s, st, fid)

    def outs(self, res, f):
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append(Out(s, "exc", v.ex))
            else:
                out += f(s, v)
        return out

    def s_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, st, fid)
        if isinstance(s.value, ast.YieldFrom):
            return self.do_yield_from(s.value, st, fid)
        return self.outs(self.ev(s.value, st, fid), lambda s2, v: [Out(s2, "next")])

    def s_Pass(self, s, st, fid):
        return [Out(st, "next")]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st, fid):
        for al in s.names:
            st.set(fid, al.asname or al.name.split(".")[0], Mod(al.name))
        return [Out(st, "next")]

    def s_ImportFrom(self, s, st, fid):
        for al in s.names:
            if s.level and s.module in self.prog.names:
                st.set(fid, al.asname or al.name, self.global_name(al.name, s.module))
            elif al.name in ("PurePosixPath", "Path"):
                st.set(fid, al.asname or al.name, Cl(al.name))
            else:
                st.set(fid, al.asname or al.name, Mod("%s.%s" % (s.module, al.name)))
        return [Out(st, "next")]

    def s_Nonlocal(self, s, st, fid):
        raise Unsupported("nonlocal")

    def s_Assert(self, s, st, fid):
        return self.outs(self.ev(s.test, st, fid), lambda s2, v: [
            Out(s3, "next") if b else Out(s3, "exc", Ex("AssertionError"))
            for s3, b in self.branch(s2, self.truth(s2, v))])

    def s_FunctionDef(self, s, st, fid):
        st.set(fid, s.name, Func(s, st.envs[fid]["@module"], fid=fid))
        return [Out(st, "next")]

    def s_Assign(self, s, st, fid):
        def f(s2, v):
            states = [Out(s2, "next")]
            for t in s.targets:
                nxt = []
                for o in states:
                    if o.kind == "next":
                        nxt += self.assign(t, v, o.st, fid)
                    else:
                        nxt.append(o)
                states = nxt
            return states
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported("value of yield")
        return self.outs(self.ev(s.value, st, fid), f)

    def s_AnnAssign(self, s, st, fid):
        if s.value is None:
            return [Out(st, "next")]
        return self.outs(self.ev(s.value, st, fid), lambda s2, v: self.assign(s.target, v, s2, fid))

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            st.set(fid, t.id, v)
            return [Out(st, "next")]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            res = self.unpack_items(st, v, len(t.elts))
            out = []
            for s2, items in res:
                if isinstance(items, Raise):
                    out.append(Out(s2, "exc", items.ex))
                    continue
                states = [Out(s2, "next")]
                for x, i in zip(t.elts, items):
                    nxt = []
                    for o in states:
                        nxt += self.assign(x, i, o.st, fid) if o.kind == "next" else [o]
                    states = nxt
                out += states
            return out
        if isinstance(t, ast.Attribute):
            return self.outs(self.ev(t.value, st, fid), lambda s2, o: self.setattr(s2, o, t.attr, v))
        if isinstance(t, ast.Subscript):
            def f(s2, vs):
                return self.setitem(s2, vs[0], vs[1], v)
            return self.outs(self.evs([t.value, t.slice], st, fid), f)
        raise Unsupported("assignment target")

    def unpack_items(self, st, v, n):
        if isinstance(v, Tup):
            if len(v.items) == n:
                return [(st, v.items)]
            return [(st, Raise(Ex("ValueError")))]
        if isinstance(v, LList):
            cs = self.chunks(st, v)
            if all(isinstance(c, Item) for c in cs):
                if len(cs) == n:
                    return [(st, [c.v for c in cs])]
                return [(st, Raise(Ex("ValueError")))]
        T = self.elem_type(st, v)
        if T is not None and isinstance(T, str):
            if isinstance(v, Val):
                src = self.list_src(st, v)
                out = []
                for s, b in self.branch(st, src.ident[0] == n):
                    if b:
                        res = [(s, [])]
                        for i in range(n):
                            res = [(s3, acc + [x]) for s2, acc in res for s3, x in src.elem(s2, IntVal(i))]
                        out += res
                    else:
                        out.append((s, Raise(Ex("ValueError"))))
                return out
            s2 = st.copy()
            return [(st, [Val(T, fresh("elem", SORT[T])) for _ in range(n)]), (s2, Raise(Ex("ValueError")))]
        if isinstance(v, Val) and v.T == "obj":
            s2 = st.copy()
            return [(st, [Val("obj", fresh("elem", Obj)) for _ in range(n)]), (s2, Raise(Ex("ValueError")))]
        raise Unsupported("unpacking %r" % (v,))

    def setattr(self, st, o, name, v):
        if isinstance(o, Val) and not isinstance(o.T, str) and o.T[0] == "ref":
            if self.ftype(o.T[1], name) is None:
                raise Unsupported("field %s of %s" % (name, o.T[1]))
            self.site(st, "setattr", o, name, v)
            self.put(st, o.t, o.T[1], name, v)
            return [Out(st, "next")]
        if isinstance(o, Inst):
            if ("inst", o.id) in st.frozen:
                raise NotSummarisable("inst")
            f = dict(st.insts[o.id])
            f[name] = v
            st.insts[o.id] = f
            return [Out(st, "next")]
        raise Unsupported("attribute assignment on %r" % (o,))

    def setitem(self, st, o, k, v):
        if isinstance(o, Kids):
            if isinstance(v, Val) and isref(v.T):
                self.site(st, "addkid", ref("VirtualDirectory", o.d), k, v)
                self.set_kids(st, o.d, None, k.t, v.t)
                return [Out(st, "next")]
        if isinstance(o, Val) and not isinstance(o.T, str) and o.T[0] == "dict":
            arrs = self.dict_arrays(st, o)
            kt = self.pack(st, o.T[1], k)[0]
            new = [Store(arrs[0], kt, TRUE)]
            for a, t in zip(arrs[1:], self.pack(st, o.T[2], v)):
                new.append(Store(a, kt, t))
            self.set_dict_arrays(st, o, new)
            return [Out(st, "next")]
        if isinstance(o, LDict):
            d = st.dicts[o.id]
            if d.get("ref") is not None:
                return self.setitem(st, d["ref"], k, v)
            st.lists[("d", o.id)] = st.lists[("d", o.id)] + [Item(Tup([k, v]))]
            return [Out(st, "next")]
        raise Unsupported("item assignment on %r" % (o,))

    def s_AugAssign(self, s, st, fid):
        load = ast.copy_location({ast.Name: lambda t: ast.Name(id=t.id, ctx=ast.Load()),
                                  ast.Attribute: lambda t: ast.Attribute(value=t.value, attr=t.attr,
                                                                         ctx=ast.Load()),
                                  ast.Subscript: lambda t: ast.Subscript(value=t.value, slice=t.slice,
                                                                         ctx=ast.Load())}[
            type(s.target)](s.target), s)

        def f(s2, vs):
            a, b = vs
            if isinstance(a, LList) and isinstance(s.op, ast.Add):
                self.list_extend(s2, a, self.iter_chunks(s2, b))
                return [Out(s2, "next")]
            return self.outs(self.binop(s2, type(s.op).__name__, a, b),
                             lambda s3, v: self.assign(s.target, v, s3, fid))
        return self.outs(self.evs([load, s.value], st, fid), f)

    def s_Delete(self, s, st, fid):
        states = [Out(st, "next")]
        for t in s.targets:
            nxt = []
            for o in states:
                if o.kind != "next":
                    nxt.append(o)
                    continue
                if not isinstance(t, ast.Subscript):
                    raise Unsupported("del")
                nxt += self.outs(self.evs([t.value, t.slice], o.st, fid),
                                 lambda s2, vs: self.delitem(s2, vs[0], vs[1]))
            states = nxt
        return states

    def delitem(self, st, o, k):
        if isinstance(o, Kids):
            out = []
            for s, b in self.branch(st, Select(self.kids_term(st, o.d), k.t) != null):
                if b:
                    self.site(s, "delkid", ref("VirtualDirectory", o.d), k, None)
                    self.set_kids(s, o.d, None, k.t, null)
                    out.append(Out(s, "next"))
                else:
                    out.append(Out(s, "exc", Ex("KeyError")))
            return out
        if isinstance(o, Val) and not isinstance(o.T, str) and o.T[0] == "dict":
            arrs = self.dict_arrays(st, o)
            kt = self.pack(st, o.T[1], k)[0]
            out = []
            for s, b in self.branch(st, Select(arrs[0], kt)):
                if b:
                    self.set_dict_arrays(s, o, [Store(arrs[0], kt, FALSE)] + arrs[1:])
                    out.append(Out(s, "next"))
                else:
                    out.append(Out(s, "exc", Ex("KeyError")))
            return out
        raise Unsupported("del item of %r" % (o,))

    def s_Return(self, s, st, fid):
        if s.value is None:
            return [Out(st, "ret", NONE)]
        return self.outs(self.ev(s.value, st, fid), lambda s2, v: [Out(s2, "ret", v)])

    def s_Raise(self, s, st, fid):
        if s.exc is None:
            ex = st.envs[fid].get("@exc")
            f = fid
            while ex is None and f is not None:
                ex = st.envs[f].get("@exc")
                f = st.envs[f].get("@closure")
            if ex is None:
                raise Unsupported("re-raise outside handler")
            return [Out(st, "exc", ex)]

        def f(s2, v):
            if isinstance(v, Cl):
                v = Ex(v.name)
            if not isinstance(v, Ex):
                raise Unsupported("raise %r" % (v,))
            return [Out(s2, "exc", v)]
        return self.outs(self.ev(s.exc, st, fid), f)

    def s_If(self, s, st, fid):
        def f(s2, v):
            out = []
            for s3, b in self.branch(s2, self.truth(s2, v)):
                out += self.ex(s.body if b else s.orelse, s3, fid)
            return out
        return self.outs(self.ev(s.test, st, fid), f)

    def s_Break(self, s, st, fid):
        return [Out(st, "brk")]

    def s_Continue(self, s, st, fid):
        return [Out(st, "cont")]

    def exc_match(self, ex, names):
        """[(bool, refined exception)]"""
        if ex.cls is not None:
            return [(any(self.prog.subclass(ex.cls, n) for n in names), ex)]
        if any(n in ("Exception", "BaseException") for n in names):
            return [(True, ex)]
        out = []
        for n in names:
            if not any(self.prog.subclass(n, o) for o in ex.outside):
                out.append((True, Ex(n, ex.msg, ex)))
        out.append((False, Ex(None, ex.msg, ex.cause, ex.outside + tuple(names))))
        return out

    def handler_names(self, h, st, fid):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.ev(t, st, fid)[0][1]
            if isinstance(v, Cl):
                out.append(v.name)
            elif isinstance(v, Tup):
                out += [x.name for x in v.items]
            elif isinstance(v, Mod):
                out.append(v.name)
            else:
                raise Unsupported("exception class")
        return out

    def s_Try(self, s, st, fid):
        mid = []
        for o in self.ex(s.body, st, fid):
            if o.kind == "next" and s.orelse:
                mid += self.ex(s.orelse, o.st, fid)
            elif o.kind == "exc":
                mid += self.handle(s, o, fid)
            else:
                mid.append(o)
        if not s.finalbody:
            return mid
        out = []
        for o in mid:
            for o2 in self.ex(s.finalbody, o.st, fid):
                out.append(Out(o2.st, o.kind, o.val) if o2.kind == "next" else o2)
        return out

    def handle(self, s, o, fid):
        out, pend = [], [(o.st, o.val)]
        for h in s.handlers:
            nxt = []
            for st, ex in pend:
                names = self.handler_names(h, st, fid)
                ms = self.exc_match(ex, names)
                for i, (b, ex2) in enumerate(ms):
                    s2 = st.copy() if i < len(ms) - 1 else st
                    if not b:
                        nxt.append((s2, ex2))
                        continue
                    old = s2.envs[fid].get("@exc")
                    s2.set(fid, "@exc", ex2)
                    if h.name:
                        s2.set(fid, h.name, ex2)
                    for o2 in self.ex(h.body, s2, fid):
                        o2.st.set(fid, "@exc", old)
                        out.append(o2)
            pend = nxt
        return out + [Out(st, "exc", ex) for st, ex in pend]

    # ------------------------------------------------------------------ with
    def s_With(self, s, st, fid):
        if len(s.items) > 1:
            inner = ast.copy_location(ast.With(items=s.items[1:], body=s.body), s)
            s = ast.copy_location(ast.With(items=s.items[:1], body=[inner]), s)
        item = s.items[0]
        out = []
        for s2, cm in self.ev(item.context_expr, st, fid):
            if isinstance(cm, Raise):
                out.append(Out(s2, "exc", cm.ex))
                continue
            out += self.with_value(s2, cm, item.optional_vars, s.body, fid)
        return out

    def with_value(self, st, cm, var, body, fid):
        def run_body(s, v):
            outs = self.assign(var, v, s, fid) if var is not None else [Out(s, "next")]
            res = []
            for o in outs:
                res += self.ex(body, o.st, fid) if o.kind == "next" else [o]
            return res
        if isinstance(cm, CtxMgr):
            return cm.gen.run(st, run_body)
        if isinstance(cm, Bound) and cm.name == "suppress":
            names = [c.name for c in cm.obj.items]
            out = []
            for o in run_body(st, NONE):
                if o.kind == "exc":
                    ms = self.exc_match(o.val, names)
                    for i, (b, ex2) in enumerate(ms):
                        s2 = o.st.copy() if i < len(ms) - 1 else o.st
                        out.append(Out(s2, "next") if b else Out(s2, "exc", ex2))
                else:
                    out.append(o)
            return out
        if isinstance(cm, Bound) and cm.name == "nullctx":
            return run_body(st, cm.obj)
        raise Unsupported("with %r" % (cm,))

    # ------------------------------------------------------------------ generators
    def do_yield(self, y, st, fid):
        def f(s2, v):
            h = s2.handlers[-1]
            s2.handlers = s2.handlers[:-1]
            out = []
            for o in h(s2, v):
                o.st.handlers = o.st.handlers + (h,)
                if o.kind in ("next", "cont"):
                    out.append(Out(o.st, "next"))
                elif o.kind == "exc":
                    out.append(o)
                else:
                    out.append(Out(o.st, "x" + o.kind, o.val))
            return out
        if y.value is None:
            return f(st, NONE)
        return self.outs(self.ev(y.value, st, fid), f)

    def do_yield_from(self, y, st, fid):
        def f(s2, v):
            h = s2.handlers[-1]
            if isinstance(v, Gen):
                s2.handlers = s2.handlers[:-1]
                out = []
                for o in v.run(s2, h):
                    o.st.handlers = o.st.handlers + (h,)
                    if o.kind in ("brk", "ret") :
                        out.append(Out(o.st, "x" + o.kind, o.val))
                    else:
                        out.append(o)
                return out

            def one(s3, x):
                s3.handlers = s3.handlers[:-1]
                res = []
                for o in h(s3, x):
                    o.st.handlers = o.st.handlers + (h,)
                    res.append(Out(o.st, "next") if o.kind in ("next", "cont") else o if o.kind == "exc" else Out(
                        o.st, "x" + o.kind, o.val))
                return res
            out = []
            for s3, chunks in self.iterate(s2, v):
                out += self.run_chunks(chunks, s3, one, fid, y)
            return out
        return self.outs(self.ev(y.value, st, fid), f)

    def make_gen(self, fn, bound_env, name):
        """Generator object for a source generator function whose parameters are bound."""
        eng = self

        def run(st, handler):
            nf = eng.nid()
            st.envs[nf] = bound_env
            st.handlers = st.handlers + (handler,)
            depth = len(st.handlers)
            eng.enter(name)
            try:
                outs = eng.ex(fn.node.body, st, nf)
            finally:
                eng.leave()
            res = []
            for o in outs:
                o.st.handlers = o.st.handlers[:depth - 1]
                if o.kind in ("next", "ret"):
                    res.append(Out(o.st, "next"))
                elif o.kind.startswith("x"):
                    res.append(Out(o.st, o.kind[1:], o.val))
                else:
                    res.append(o)
            return res
        return Gen(run, name)

    def enter(self, name):
        if self.inlining.count(name) >= 1:
            raise Unsupported("recursion through %s without a contract" % name)
        self.inlining.append(name)
        self.inlined.add(name)
        if len(self.inlining) > 25:
            raise Unsupported("call depth")

    def leave(self):
        self.inlining.pop()

    def site(self, st, what, *a):
        if self.site_checks is not None:
            self.site_checks(self, st, what, *a)


from . import loops, calls, builtins_  # noqa: E402  (methods are attached below)
for _m in (loops, calls, builtins_):
    for _k, _v in list(vars(_m).items()):
        if _k.startswith("m_"):
            setattr(Engine, _k[2:], _v)
