"""Models of the builtins, str/path/list/dict methods and library calls that sandfs uses.

Everything not listed raises Unsupported, which puts the calling function out of reach.
"""
import ast
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, Select, Store, ForAll
from . import logic as L
from .logic import S, Ref, Obj, null, lit, fresh
from .values import *


def _E():
    from . import engine
    return engine


TRUE, FALSE = BoolVal(True), BoolVal(False)


def _s(st, lab=(), nm="str"):
    return Val("str", fresh(nm, S), tuple(lab))


# ---------------------------------------------------------------- builtins
def m_b_isinstance(self, st, args, kw):
    E = _E()
    v, c = args
    names = [x.name for x in c.items] if isinstance(c, Tup) else [c.name]
    if isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "ref":
        if self.fam(v.T[1]) == "N":
            alts = []
            for n in names:
                if n == "VirtualNode":
                    alts.append(L.isnode(v.t))
                elif n in ("VirtualFile", "VirtualDirectory"):
                    alts.append(L.clsof(v.t) == L.cls_id(n))
            return [(st, E.vbool(Or(alts) if alts else FALSE))]
        return [(st, E.vbool(any(self.prog.subclass(v.T[1], n) for n in names)))]
    if isinstance(v, Inst):
        return [(st, E.vbool(any(self.prog.subclass(v.cls, n) for n in names)))]
    if v is NONE:
        return [(st, E.vbool(False))]
    if isinstance(v, Val) and v.T in ("str", "int", "bool", "path"):
        pn = {"str": "str", "int": "int", "bool": "bool", "path": "PurePosixPath"}[v.T]
        return [(st, E.vbool(pn in names or (pn == "bool" and "int" in names)))]
    if isinstance(v, Ex):
        if v.cls:
            return [(st, E.vbool(any(self.prog.subclass(v.cls, n) for n in names)))]
    if isinstance(v, Val) and v.T == "obj":
        hook = st.ghost.get("obj_isinstance")
        if hook is not None:
            r = hook(self, st, v, names)
            if r is not None:
                return r
        return [(st, E.vbool(fresh("isinst", z3.BoolSort())))]
    raise E.Unsupported("isinstance %r" % (v,))


def m_b_len(self, st, args, kw):
    E = _E()
    v = args[0]
    if isinstance(v, Tup) or isinstance(v, LSet):
        return [(st, E.vint(len(v.items)))]
    if isinstance(v, LList):
        cs = self.chunks(st, v)
        n, t = 0, None
        for c in cs:
            if isinstance(c, Item):
                n += 1
            elif isinstance(c, SLs):
                t = L.slen(c.t) if t is None else t + L.slen(c.t)
            elif isinstance(c, Comp) and c.src.kind == "list" and len(c.alts) == 1 and E.conc_bool(
                    c.alts[0][0]) is True and len(c.alts[0][1]) == 1 and isinstance(c.alts[0][1][0], Item):
                t = c.src.ident[0] if t is None else t + c.src.ident[0]
            else:
                x = fresh("len", z3.IntSort())
                st.assume(x >= 0)
                t = x if t is None else t + x
        return [(st, E.vint(IntVal(n) if t is None else t + n))]
    if isinstance(v, Val):
        if v.T == "str":
            s = E.lit_of(v.t)
            return [(st, E.vint(IntVal(len(s)) if s is not None else L.strlen(v.t)))]
        if v.T == "bytes":
            return [(st, E.vint(L.blen(v.t)))]
        if not isinstance(v.T, str) and v.T[0] == "list":
            return [(st, E.vint(self.list_src(st, v).ident[0]))]
    if isinstance(v, Bound) and v.name == "parts":
        p = v.obj.t
        return [(st, E.vint(L.slen(L.segs(p)) + If(L.anchor(p) == 0, 0, 1)))]
    if isinstance(v, Lines):
        return [(st, E.vint(L.nlines(v.s.t)))]
    x = fresh("len", z3.IntSort())
    st.assume(x >= 0)
    return [(st, E.vint(x))]


def m_b_str(self, st, args, kw):
    if not args:
        return [(st, _E().vstr(""))]
    return [(st, self.to_str(st, args[0]))]


def m_b_repr(self, st, args, kw):
    return [(st, _s(st, _E().labs(args[0])))]


def m_b_bool(self, st, args, kw):
    E = _E()
    return [(st, E.vbool(self.truth(st, args[0]) if args else FALSE))]


def m_b_int(self, st, args, kw):
    E = _E()
    v = args[0]
    if isinstance(v, Val) and v.T == "int":
        return [(st, v)]
    s2 = st.copy()
    return [(st, E.vint(fresh("int", z3.IntSort()))), (s2, Raise(Ex("ValueError")))]


def m_b_list(self, st, args, kw):
    if not args:
        return [(st, self.new_list(st, []))]
    v = args[0]
    if isinstance(v, Gen):
        acc = self.new_list(st, [])
        E = _E()

        def h(s, x):
            self.list_extend(s, acc, [Item(x)])
            return [E.Out(s, "next")]
        out = []
        for o in v.run(st, h):
            out.append((o.st, acc if o.kind == "next" else Raise(o.val)))
        return out
    return [(s, self.new_list(s, cs)) for s, cs in self.iterate(st, v)]


def m_b_tuple(self, st, args, kw):
    if not args:
        return [(st, Tup([]))]
    cs = self.iter_chunks(st, args[0])
    if all(isinstance(c, Item) for c in cs):
        return [(st, Tup([c.v for c in cs]))]
    return [(st, self.new_list(st, cs))]


def m_b_iter(self, st, args, kw):
    return [(st, args[0])]


def m_b_sorted(self, st, args, kw):
    E = _E()
    v = args[0]
    chunks = self.iter_chunks(st, v)
    return [(st, self.new_list(st, chunks))]      # element set is kept; the order is not modelled


def m_b_reversed(self, st, args, kw):
    E = _E()
    v = args[0]
    if isinstance(v, LList):
        sl = self.as_sl(st, v)
        if sl is not None:
            return [(st, SeqV([("rev", sl)], "rev"))]
    raise E.Unsupported("reversed")


def m_b_enumerate(self, st, args, kw):
    E = _E()
    start = kw.get("start", args[1] if len(args) > 1 else E.vint(0))
    v = args[0]
    if isinstance(v, Lines):
        src = self.lines_src(v)
        s0 = src.elem

        def elem(s, i):
            return [(s2, Tup([E.vint(i + start.t), x])) for s2, x in s0(s, i)]
        return [(st, SeqV([self.src_comp(st, Src("enum" + src.kind, src.ident, src.sort, src.member, elem))]))]
    cs = self.iter_chunks(st, v)
    if all(isinstance(c, Item) for c in cs):
        return [(st, SeqV([Item(Tup([E.vint(start.t + i), c.v])) for i, c in enumerate(cs)]))]
    if len(cs) == 1 and isinstance(cs[0], Comp) and cs[0].src.kind.endswith("lines"):
        c = cs[0]
        return [(st, SeqV([Comp(c.src, c.idx, [(k, [Item(Tup([E.vint(c.idx + start.t), x.v])) for x in ch])
                                               for k, ch in c.alts], c.rest)]))]
    # position unknown
    def wrap(c):
        if isinstance(c, Item):
            return Item(Tup([E.vint(fresh("havoc_pos", z3.IntSort())), c.v]))
        if isinstance(c, Comp):
            return Comp(c.src, c.idx, [(k, [wrap(x) for x in ch]) for k, ch in c.alts], c.rest)
        if isinstance(c, SLs):
            nth = z3.Function("nth", L.SL, z3.IntSort(), S)
            return self.src_comp(st, Src("words", (c.t,), z3.IntSort(), lambda i, t=c.t: And(i >= 0, i < L.slen(t)),
                                         lambda s, i, t=c.t: [(s, Tup([E.vint(fresh("havoc_pos", z3.IntSort())), Val("str", nth(t, i))]))]))
        raise E.Unsupported("enumerate")
    return [(st, SeqV([wrap(c) for c in cs]))]


def m_b_dict(self, st, args, kw):
    E = _E()
    items = [(E.vstr(k), v) for k, v in kw.items()]
    if not args:
        return [(st, self.new_dict(st, items))]
    v = args[0]
    if isinstance(v, LDict):
        d = st.dicts[v.id]
        if d.get("ref") is None:
            return [(st, self.new_dict(st, self.ditems(st, v.id) + items, st.dicts[v.id]["base"], st.dicts[v.id]["T"]))]
        v = d["ref"]
    if isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "dict":
        return [(st, self.new_dict(st, items, tuple(self.dict_arrays(st, v)), v.T))]
    if isinstance(v, Val) and v.T == "obj":
        T = ("dict", "str", "obj")
        f = [z3.Function("objdict%d" % i, Obj, s) for i, (k, s) in enumerate(self.dict_keys(T))]
        return [(st, self.new_dict(st, items, tuple(g(v.t) for g in f), T))]
    raise E.Unsupported("dict(%r)" % (v,))


def m_b_set(self, st, args, kw):
    E = _E()
    if not args:
        return [(st, LSet([]))]
    v = args[0]
    if isinstance(v, Val) and not isinstance(v.T, str) and v.T[0] == "set":
        r = self.alloc(st, None)
        key = "%s.items" % tname(v.T)
        arr = self.set_items(st, v)
        st.heap[key] = Store(self.harr(st, key, z3.ArraySort(SORT[v.T[1]], z3.BoolSort())), r, arr)
        return [(st, Val(v.T, r))]
    if isinstance(v, SeqV) or isinstance(v, LList) or isinstance(v, Tup) or isinstance(v, Val):
        cs = self.iter_chunks(st, v)
        if all(isinstance(c, Item) for c in cs):
            return [(st, LSet([c.v for c in cs]))]
        if len(cs) == 1 and isinstance(cs[0], Comp) and len(cs[0].alts) >= 1:
            c = cs[0]
            ts = {self.chunk_type(x) for _, ch in c.alts for x in ch}
            T = ts.pop() if len(ts) == 1 else None
            if isinstance(T, str) and T in SORT:
                srt = SORT[T]
                arr = fresh("setof", z3.ArraySort(srt, z3.BoolSort()))
                mem = c.src.member(c.idx)
                x = z3.Const("x", srt)
                alts = []
                for k, ch in c.alts:
                    if len(ch) != 1 or not isinstance(ch[0], Item) or not L.only_depends(k, c.idx) \
                            or not L.only_depends(ch[0].v.t, c.idx):
                        raise E.Unsupported("set of a dependent sequence")
                    st.assume(L.forall_idx(c.idx, And(mem, k), Select(arr, ch[0].v.t)))
                    alts.append(And(k, x == ch[0].v.t))
                st.assume(ForAll([x], Implies(Select(arr, x), z3.Exists([c.idx], And(mem, Or(alts)))),
                                 patterns=[Select(arr, x)]))
                T2 = ("set", T)
                r = self.alloc(st, None)
                key = "%s.items" % tname(T2)
                st.heap[key] = Store(self.harr(st, key, z3.ArraySort(srt, z3.BoolSort())), r, arr)
                return [(st, Val(T2, r))]
    raise E.Unsupported("set(%r)" % (v,))


m_b_frozenset = m_b_set


def m_b_filter(self, st, args, kw):
    E = _E()
    f, v = args
    if f is not NONE:
        raise E.Unsupported("filter with a function")
    out = []
    for c in self.iter_chunks(st, v):
        if isinstance(c, Item):
            t = E.conc_bool(self.truth(st, c.v))
            if t is True:
                out.append(c)
            elif t is None:
                out.append(("maybe", self.truth(st, c.v), c))
        elif isinstance(c, Comp):
            alts, rest = [], None if c.rest is None else c.rest[:]
            for k, ch in c.alts:
                if len(ch) != 1 or not isinstance(ch[0], Item):
                    raise E.Unsupported("filter")
                alts.append((And(k, self.truth(st, ch[0].v)), ch))
                if rest is not None:
                    rest.append(And(k, Not(self.truth(st, ch[0].v))))
            out.append(Comp(c.src, c.idx, alts, rest))
        else:
            out.append(c)
    return [(st, SeqV(out))]


def m_b_sum(self, st, args, kw):
    E = _E()
    cs = self.iter_chunks(st, args[0])
    if all(isinstance(c, Item) for c in cs):
        t = IntVal(0)
        for c in cs:
            t = t + c.v.t
        return [(st, E.vint(t))]
    return [(st, E.vint(fresh("havoc_sum", z3.IntSort())))]


def m_b_max(self, st, args, kw):
    """max(seq, key=f): some element whose key is not below any other element's key."""
    E = _E()
    if len(args) != 1 or "key" not in kw:
        if len(args) == 2 and all(isinstance(a, Val) and a.T == "int" for a in args):
            return [(st, E.vint(If(args[0].t >= args[1].t, args[0].t, args[1].t)))]
        raise E.Unsupported("max")
    cs = self.iter_chunks(st, args[0])
    if len(cs) != 1 or not isinstance(cs[0], Comp):
        raise E.Unsupported("max of a mixed list")
    c = self.renew(st, cs[0])
    out = []
    for k, ch in c.alts:
        if len(ch) != 1 or not isinstance(ch[0], Item):
            raise E.Unsupported("max")
        s = st.copy().assume(c.src.member(c.idx), k)
        if not self.feasible(s):
            continue
        for s2, kv in self.call(s, kw["key"], [ch[0].v], {}):
            if isinstance(kv, Raise):
                out.append((s2, kv))
                continue
            # every element has a key not above
            for k2, ch2 in cs[0].alts:
                s3 = st.copy()
                n = len(s3.pc)
                for s4, kv2 in self.call(s3, kw["key"], [ch2[0].v], {}):
                    if isinstance(kv2, Raise):
                        raise E.Unsupported("raising key")
                    cond = And([k2] + s4.pc[n:])
                    body = Implies(cond, kv2.t <= kv.t)
                    if not L.only_depends(body, cs[0].idx) and not True:
                        raise E.Unsupported("max key")
                    s2.assume(L.forall_idx(cs[0].idx, cs[0].src.member(cs[0].idx), body))
            out.append((s2, ch[0].v))
    return out


def m_b_min(self, st, args, kw):
    E = _E()
    if len(args) == 2 and all(isinstance(a, Val) and a.T == "int" for a in args):
        return [(st, E.vint(If(args[0].t <= args[1].t, args[0].t, args[1].t)))]
    raise E.Unsupported("min")


def m_b_type(self, st, args, kw):
    return [(st, Val("obj", fresh("type", Obj)))]


def m_b_getattr(self, st, args, kw):
    E = _E()
    if len(args) == 3 and isinstance(args[0], Ex):
        return [(st, E.vint(fresh("errno", z3.IntSort())))]
    n = E.lit_of(args[1].t) if isinstance(args[1], Val) and args[1].T == "str" else None
    if n is None:
        raise E.Unsupported("getattr")
    return self.attr(st, args[0], n)


def m_b_next(self, st, args, kw):
    raise _E().Unsupported("next")


def m_b_range(self, st, args, kw):
    E = _E()
    cs = [E.simp(a.t) for a in args]
    if all(z3.is_int_value(c) for c in cs):
        return [(st, Tup([E.vint(i) for i in range(*[c.as_long() for c in cs])]))]
    raise E.Unsupported("range")


def m_b_print(self, st, args, kw):
    return [(st, NONE)]


def m_b_zip(self, st, args, kw):
    raise _E().Unsupported("zip")


def m_b_any(self, st, args, kw):
    E = _E()
    return [(st, E.vbool(fresh("any", z3.BoolSort())))]


m_b_all = m_b_any


def m_b_compile(self, st, args, kw):
    s2 = st.copy()
    self.site(st, "compile", *args)
    return [(st, Val("obj", fresh("code", Obj))), (s2, Raise(Ex("ValueError")))]


def m_b_exec(self, st, args, kw):
    """The snippet may do anything to the environment it is given, and to the builtins found in it, and raise anything.
    (What it does to the filesystem is outside the property the executor has to keep.)"""
    E = _E()
    T = ("dict", "str", "obj")
    envs = []
    for a in list(args[1:3]) or [None]:
        if isinstance(a, LDict):
            a = Val(T, self.heapify_dict(st, a, T))
        if not (isinstance(a, Val) and a.T == T):
            raise E.Unsupported("exec in this environment")
        envs.append(a)
    self.site(st, "exec", *envs)
    unbox = z3.Function("unbox_Ref", Obj, Ref)
    # the builtins are looked up in the globals, new names go to the locals
    b = Val(T, unbox(Select(self.dict_arrays(st, envs[0])[1], L.lit("__builtins__"))))
    for d in [b] + envs:
        self.set_dict_arrays(st, d, [fresh("execd", s.sort()) for s in self.dict_arrays(st, d)])
    st.ghost["execd"] = self.dict_arrays(st, envs[-1])
    s2 = st.copy()
    return [(st, NONE), (s2, Raise(Ex(None)))]


def m_new_PurePosixPath(self, st, args, kw):
    E = _E()
    if not args:
        return [(st, E.vpath(L.P(0, L.Nil)))]
    v = self.path_arg(st, args[0])
    for a in args[1:]:
        v = self.joinpath(v, self.path_arg(st, a))
    return [(st, v)]


def m_path_arg(self, st, v):
    E = _E()
    if isinstance(v, Val) and v.T in ("path", "str"):
        t = v.t
        # "/" + "/".join(list) and "/".join(list) of a list of legal segments
        return self.to_path(v)
    raise E.Unsupported("path of %r" % (v,))


_hof = z3.Function("hostpath", L.S, Obj)


def m_new_Path(self, st, args, kw):
    E = _E()
    v = args[0]
    if isinstance(v, Val) and v.T in ("hpath", "obj"):
        return [(st, Val("hpath", v.t))]
    if isinstance(v, Val) and v.T == "str":
        return [(st, Val("hpath", _hof(v.t)))]
    raise E.Unsupported("Path(%r)" % (v,))


# ---------------------------------------------------------------- methods
def m_call_method(self, st, b, args, kw):
    E = _E()
    o, n = b.obj, b.name
    if n == "super":
        raise E.Unsupported("super()")
    if isinstance(o, Bound) and o.name == "super":
        inst, cl = o.obj.items
        mro = self.prog.mro(cl.name)
        for c in mro[1:]:
            k = self.prog.classes.get(c)
            if k is None:
                continue
            if n in k.methods:
                return self.call_func(st, Func(k.methods[n], k.module, self_=inst, cls=c), args, kw)
            if n == "__init__" and k.dataclass:
                return self.dataclass_init(st, c, inst, args, kw)
        return [(st, NONE)]
    if isinstance(o, Bi):
        if o.name == "object" and n == "__setattr__":
            nm = E.lit_of(args[1].t)
            return [(x.st, NONE if x.kind == "next" else Raise(x.val)) for x in self.setattr(st, args[0], nm, args[2])]
        if o.name == "dict" and n == "fromkeys":
            raise E.Unsupported("dict.fromkeys")
        if o.name == "str":
            return self.call_method(st, Bound(args[0], n), args[1:], kw)
    if isinstance(o, Cl) and o.name in ("PurePosixPath", "Path"):
        raise E.Unsupported("%s.%s" % (o.name, n))
    if isinstance(o, Val):
        if o.T == "str":
            return self.str_method(st, o, n, args, kw)
        if o.T == "bytes":
            if n == "decode":
                return [(st, Val("str", z3.Function("decoded", S, S)(o.t), o.lab))]
        if o.T == "path":
            return self.path_method(st, o, n, args, kw)
        if o.T == "hpath":
            return self.host_method(st, o, n, args, kw)
        if not isinstance(o.T, str) and o.T[0] == "dict":
            return self.dict_method(st, o, n, args, kw)
        if not isinstance(o.T, str) and o.T[0] == "list":
            return self.hlist_method(st, o, n, args, kw)
        if not isinstance(o.T, str) and o.T[0] == "set":
            raise E.Unsupported("set.%s" % n)
        if o.T == "obj" or o.T in FUNS:
            return self.obj_method(st, o, n, args, kw)
    if isinstance(o, LList):
        return self.list_method(st, o, n, args, kw)
    if isinstance(o, LDict):
        return self.ldict_method(st, o, n, args, kw)
    if isinstance(o, Kids):
        return self.kids_method(st, o, n, args, kw)
    if isinstance(o, (SeqV, Tup)) and n in ("items", "keys", "values"):
        raise E.Unsupported("%s of a computed dict" % n)
    if isinstance(o, SeqV) and o.kind == "dict" and n == "items":
        return [(st, SeqV(o.chunks))]
    raise E.Unsupported("method %s of %r" % (n, o))


def m_str_method(self, st, o, n, args, kw):
    E = _E()
    lab = o.lab
    if n == "join":
        return self.str_join(st, o, args[0])
    if n == "splitlines":
        return [(st, Lines(o, bool(args) or "keepends" in kw))]
    if n in ("startswith", "endswith"):
        f = L.startswith if n == "startswith" else L.endswith
        a, b = E.lit_of(o.t), E.lit_of(args[0].t) if isinstance(args[0], Val) else None
        if a is not None and b is not None:
            return [(st, E.vbool(getattr(a, n)(b)))]
        if isinstance(args[0], Tup):
            return [(st, E.vbool(Or([f(o.t, x.t) for x in args[0].items])))]
        return [(st, E.vbool(f(o.t, args[0].t)))]
    if n == "lower":
        return [(st, Val("str", L.lower(o.t), lab))]
    if n == "encode":
        return [(st, Val("bytes", z3.Function("encoded", S, S)(o.t) if "errors" in kw or len(args) < 2
                         else o.t, lab))] if False else [(st, Val("bytes", o.t, lab))]
    if n in ("strip", "rstrip", "lstrip", "replace", "upper", "title", "format", "expandtabs", "ljust", "rjust",
             "casefold", "removeprefix", "removesuffix", "zfill", "translate", "swapcase", "capitalize"):
        return [(st, _s(st, E.labs(o, *[a for a in args if isinstance(a, Val)])))]
    if n in ("isdigit", "isspace", "isalpha", "isalnum", "isidentifier", "isupper", "islower", "isnumeric"):
        return [(st, E.vbool(z3.Function("str_" + n, S, z3.BoolSort())(o.t)))]
    if n in ("find", "count", "index", "rfind"):
        s2 = st.copy()
        r = [(st, E.vint(fresh("idx", z3.IntSort())))]
        return r + ([(s2, Raise(Ex("ValueError")))] if n == "index" else [])
    if n in ("partition", "rpartition"):
        return [(st, Tup([_s(st, lab), _s(st, ()), _s(st, lab)]))]
    if n in ("split", "rsplit"):
        sep = args[0] if args else None
        if len(args) == 2 and isinstance(args[1], Val) and z3.is_int_value(E.simp(args[1].t)) and \
                E.simp(args[1].t).as_long() == 1:
            out = []
            for s, b in self.branch(st, L.contains(o.t, sep.t)):
                if b:
                    out.append((s, self.new_list(s, [Item(_s(s, lab)), Item(_s(s, lab))])))
                else:
                    out.append((s, self.new_list(s, [Item(o)])))
            return out
        return [(st, Val(("list", "str"), fresh("split", Ref), lab))]
    raise E.Unsupported("str.%s" % n)


def m_str_join(self, st, sep, v):
    E = _E()
    if isinstance(v, SeqV) and v.kind == "rev":
        l = v.chunks[0][1]
        t = z3.Function("joinedrev", S, L.SL, S)(sep.t, l)
        return [(st, Val("str", L.joined(sep.t, L.revapp(L.Nil, l))))]
    if isinstance(v, Gen):
        out = []
        for s, l in self.b_list(st, [v], {}):
            out += [(s, l)] if isinstance(l, Raise) else self.str_join(s, sep, l)
        return out
    cs = self.iter_chunks(st, v)
    if isinstance(v, LList):
        sl = self.as_sl(st, v)
        if sl is not None and E.lit_of(sep.t) == "/":
            return [(st, Val("str", L.joined(sep.t, sl)))]
    if all(isinstance(c, Item) for c in cs) and len(cs) <= 1:
        return [(st, cs[0].v if cs else E.vstr(""))]
    self.disclose(st, cs, "joined")
    # every label has been checked under its own condition
    t = fresh("joined", S)
    return [(st, Val("str", t, ("checked",) if False else ()))]


def m_disclose(self, st, chunks, why, extra=()):
    """Text with labels reaches an output: the label's condition must hold."""
    E = _E()
    for c in chunks:
        if isinstance(c, Item):
            self.disclose_val(st, c.v, why, extra)
        elif isinstance(c, Comp):
            for k, ch in c.alts:
                self.disclose(st, ch, why, tuple(extra) + (c.src.member(c.idx), k))
        elif isinstance(c, Part):
            self.disclose(st, [c.comp], why, extra)
        elif isinstance(c, tuple) and c and c[0] == "maybe":
            self.disclose(st, [c[2]], why, tuple(extra) + (c[1],))


def m_disclose_val(self, st, v, why, extra=()):
    if isinstance(v, Tup):
        for x in v.items:
            self.disclose_val(st, x, why, extra)
    elif isinstance(v, Inst):
        for x in st.insts[v.id].values():
            if not isinstance(x, Inst):
                self.disclose_val(st, x, why, extra)
    elif isinstance(v, LList):
        self.disclose(st, st.lists[v.id], why, extra)
    elif isinstance(v, SeqV):
        self.disclose(st, v.chunks, why, extra)
    elif isinstance(v, Lines):
        self.disclose_val(st, v.s, why, extra)
    elif isinstance(v, Val):
        for l in v.lab:
            l.oblige(self, st, why, extra)


def m_path_method(self, st, o, n, args, kw):
    E = _E()
    p = o.t
    if n == "is_absolute":
        return [(st, E.vbool(L.anchor(p) != 0))]
    if n == "joinpath":
        v = o
        for a in args:
            if isinstance(a, tuple):
                raise E.Unsupported("star argument")
            v = self.joinpath(v, self.path_arg(st, a))
        return [(st, v)]
    if n in ("is_relative_to", "relative_to"):
        q = self.path_arg(st, args[0]).t
        c = And(L.anchor(p) == L.anchor(q), L.prefix(L.segs(q), L.segs(p)))
        if n == "is_relative_to":
            return [(st, E.vbool(c))]
        out = []
        for s, b in self.branch(st, c):
            out.append((s, E.vpath(L.P(0, L.drop(L.segs(p), L.segs(q))))) if b else (s, Raise(Ex("ValueError"))))
        return out
    if n == "as_posix":
        return [(st, Val("str", L.pstr(p)))]
    if n == "with_name":
        raise E.Unsupported("with_name")
    if n in ("match", "is_reserved"):
        return [(st, E.vbool(fresh("match", z3.BoolSort())))]
    raise E.Unsupported("path.%s" % n)


# host paths: uninterpreted, every operation that touches the host is a ghost site
hres = z3.Function("hresolve", Obj, Obj)
hin = z3.Function("hinside", Obj, Obj, z3.BoolSort())     # lexical is_relative_to
hparent = z3.Function("hparent", Obj, Obj)


host_fs = z3.Const("host_fs", Ref)
L_OB = z3.ArraySort(Obj, z3.BoolSort())


def m_host(self, st, f):
    """The host filesystem as a map from real locations."""
    k = "O.@" + f
    return Select(self.harr(st, k, self.key_sort(k)), host_fs)


def m_host_set(self, st, f, loc, v):
    k = "O.@" + f
    if k in st.frozen:
        raise _E().NotSummarisable(k)
    arr = self.harr(st, k, self.key_sort(k))
    st.heap[k] = Store(arr, host_fs, Store(Select(arr, host_fs), loc, v))


def m_host_method(self, st, o, n, args, kw):
    E = _E()
    self.site(st, "host." + n, o, args)
    real = hres(o.t)
    st.assume(hres(real) == real)
    fail = lambda: (st.copy(), Raise(Ex("OSError")))
    if n == "resolve":
        return [(st, Val("hpath", real))]
    if n in ("is_relative_to",):
        return [(st, E.vbool(hin(o.t, args[0].t)))]
    if n in ("exists", "is_file", "is_dir"):
        f, d = Select(self.host(st, "file"), real), Select(self.host(st, "dir"), real)
        st.assume(Not(And(f, d)))
        return [(st, E.vbool({"exists": Or(f, d), "is_file": f, "is_dir": d}[n]))]
    if n == "is_symlink":
        return [(st, E.vbool(fresh("host_" + n, z3.BoolSort())))]
    if n == "mkdir":
        s2 = st.copy()
        k = "O.@dir"
        arr, new = self.harr(st, k, self.key_sort(k)), fresh("dirs", L_OB)
        x = z3.Const("x", Obj)
        st.assume(ForAll([x], Implies(Select(Select(arr, host_fs), x), Select(new, x)), patterns=[Select(new, x)]))
        st.heap[k] = Store(arr, host_fs, new)
        return [(st, NONE), (s2, Raise(Ex("OSError")))]
    if n == "stat":
        s2 = st.copy()
        v = Val("obj", fresh("stat", Obj))
        st.assume(z3.Function("ostat_st_mtime_ns", Obj, z3.IntSort())(v.t) == Select(self.host(st, "mtime"), real))
        return [(st, v), (s2, Raise(Ex("OSError")))]
    if n in ("write_bytes", "write_text"):
        s2 = st.copy()
        st.assume(Not(Select(self.host(st, "dir"), real)))
        self.host_set(st, "file", real, BoolVal(True))
        self.host_set(st, "text", real, args[0].t)
        self.host_set(st, "mtime", real, fresh("mtime", z3.IntSort()))
        # a write that fails may leave the file empty or cut off
        self.host_set(s2, "file", real, fresh("file", z3.BoolSort()))
        self.host_set(s2, "text", real, fresh("text", S))
        self.host_set(s2, "mtime", real, fresh("mtime", z3.IntSort()))
        return [(st, NONE), (s2, Raise(Ex("OSError")))]
    if n == "unlink":
        s2 = st.copy()
        self.host_set(st, "file", real, BoolVal(False))
        return [(st, NONE), (s2, Raise(Ex("OSError")))]
    if n in ("read_bytes", "read_text"):
        s2 = st.copy()
        st.assume(Select(self.host(st, "file"), real))
        t = Select(self.host(st, "text"), real)
        if n == "read_bytes":
            return [(st, Val("bytes", t)), (s2, Raise(Ex("OSError")))]
        return [(st, Val("str", z3.Function("decoded", S, S)(t))), (s2, Raise(Ex("OSError"))),
                (st.copy(), Raise(Ex("UnicodeDecodeError")))]
    if n in ("rglob", "iterdir", "glob"):
        src = Src("host." + n, (o.t, fresh("now", z3.IntSort())), Obj,
                  (lambda f: lambda x: And(f(x), hin(x, o.t)))(z3.Function("hlisted%d" % self.nid(), Obj, z3.BoolSort())),
                  lambda s, x: [(s, Val("hpath", x))])
        return [(st, SeqV([self.src_comp(st, src)]))]
    if n == "relative_to":
        return [(st, Val("hpath", z3.Function("hrel", Obj, Obj, Obj)(o.t, args[0].t)))] + (
            [(st.copy().assume(Not(hin(o.t, args[0].t))), Raise(Ex("ValueError")))])
    if n == "as_posix":
        return [(st, Val("str", L.ostr(o.t)))]
    if n == "joinpath":
        t = o.t
        for a in args:
            t = L.hjoin(t, self.box(a))
        return [(st, Val("hpath", t))]
    raise E.Unsupported("Path.%s" % n)


def m_obj_method(self, st, o, n, args, kw):
    """A method of an opaque object (compiled pattern, match, string buffer ...)."""
    E = _E()
    s2 = st.copy()
    if n in ("search", "match", "fullmatch"):
        f = z3.Function("rx_" + n, Obj, S, z3.BoolSort())
        a = args[0]
        rx = o.t
        if z3.is_app(rx) and rx.decl().name() == "rx_compile" and z3.is_app(a.t) and a.t.decl().name() == "line":
            fl = z3.simplify(rx.arg(1))         # a line holds no line break, so MULTILINE makes no difference
            if z3.is_int_value(fl):
                rx = rx.decl()(rx.arg(0), IntVal(fl.as_long() & ~8))
        t = f(rx, a.t)
        out = []
        for s, b in self.branch(st, t):
            out.append((s, Val("obj", z3.Function("rxm_" + n, Obj, S, Obj)(o.t, a.t), a.lab)) if b else (s, NONE))
        return out
    if n == "getvalue":
        return [(st, _s(st))]
    if n in ("group", "start", "end", "sub"):
        lab = E.labs(o, *[a for a in args if isinstance(a, Val)])
        if n in ("start", "end"):
            return [(st, E.vint(fresh("pos", z3.IntSort())))]
        return [(st, Val("str", fresh(n, S), lab))]
    if n in ("strftime",):
        return [(st, _s(st))]
    if n in ("items", "keys", "values", "get", "copy", "update"):
        if n == "copy":
            return [(st, Val("obj", fresh("copy", Obj), o.lab))]
        if n == "update":
            return [(st, NONE)]
        if n == "get":
            return [(st, Val("obj", fresh("got", Obj), o.lab))]
    raise E.Unsupported("method %s of an opaque object" % n)


def m_dict_method(self, st, o, n, args, kw):
    E = _E()
    T = o.T
    arrs = self.dict_arrays(st, o)
    if n == "get":
        kt = self.pack(st, T[1], args[0])[0]
        out = []
        for s, b in self.branch(st, Select(arrs[0], kt)):
            if b:
                out += self.unpack(s, T[2], [Select(a, kt) for a in arrs[1:]])
            else:
                out.append((s, args[1] if len(args) > 1 else NONE))
        return out
    if n == "pop":
        kt = self.pack(st, T[1], args[0])[0]
        out = []
        for s, b in self.branch(st, Select(arrs[0], kt)):
            if b:
                self.set_dict_arrays(s, o, [Store(arrs[0], kt, FALSE)] + arrs[1:])
                out += self.unpack(s, T[2], [Select(a, kt) for a in arrs[1:]])
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                out.append((s, Raise(Ex("KeyError"))))
        return out
    if n in ("items", "keys", "values"):
        return [(st, SeqV([self.src_comp(st, self.dict_src(st, o, n))]))]
    if n == "clear":
        self.set_dict_arrays(st, o, [z3.K(arrs[0].sort().domain(), FALSE)] + arrs[1:])
        return [(st, NONE)]
    if n == "copy":
        return [(st, self.new_dict(st, [], tuple(arrs), T))]
    if n == "setdefault":
        kt = self.pack(st, T[1], args[0])[0]
        out = []
        for s, b in self.branch(st, Select(arrs[0], kt)):
            if b:
                out += self.unpack(s, T[2], [Select(a, kt) for a in arrs[1:]])
            else:
                self.setitem(s, o, args[0], args[1])
                out.append((s, args[1]))
        return out
    if n == "update":
        v = args[0]
        if isinstance(v, LDict) and st.dicts[v.id].get("ref") is None and st.dicts[v.id]["base"] is None:
            for k, x in self.ditems(st, v.id):
                self.setitem(st, o, k, x)
            return [(st, NONE)]
        d2 = self.dict_view(st, v, T)
        if d2 is not None:
            new = self.merge_arrays(st, arrs, d2)
            self.set_dict_arrays(st, o, new)
            return [(st, NONE)]
    raise E.Unsupported("dict.%s" % n)


def m_dict_view(self, st, v, T):
    """Arrays of a dict-like value of type T."""
    if isinstance(v, Val) and v.T == T:
        return self.dict_arrays(st, v)
    if isinstance(v, Val) and v.T == "obj" and T[1] == "str" and T[2] == "obj":
        return [z3.Function("objdict%d" % i, Obj, s)(v.t) for i, (k, s) in enumerate(self.dict_keys(T))]
    if isinstance(v, LDict):
        d = st.dicts[v.id]
        if d.get("ref") is not None:
            return self.dict_arrays(st, d["ref"])
        ks = self.dict_keys(T)
        items = self.ditems(st, v.id, T)
        d = st.dicts[v.id]
        arrs = list(d["base"]) if d["base"] is not None else \
            [z3.K(ks[0][1].domain(), FALSE)] + [fresh("dc", s) for _, s in ks[1:]]
        for k, x in items:
            kt = self.pack(st, T[1], k)[0]
            arrs[0] = Store(arrs[0], kt, TRUE)
            for i, t in enumerate(self.pack(st, T[2], x)):
                arrs[i + 1] = Store(arrs[i + 1], kt, t)
        return arrs
    return None


def m_merge_arrays(self, st, a, b):
    """a updated with b."""
    out = [z3.Map(_ORD, a[0], b[0])]
    for x, y in zip(a[1:], b[1:]):
        ite = z3.If(_BA, z3.Const("ia", x.sort().range()), z3.Const("ib", x.sort().range())).decl()
        out.append(z3.Map(ite, b[0], y, x))
    return out


_BA, _BB = z3.Bools("_oa _ob")
_ORD = Or(_BA, _BB).decl()


def m_ldict_method(self, st, o, n, args, kw):
    E = _E()
    d = st.dicts[o.id]
    if d.get("ref") is not None:
        return self.dict_method(st, d["ref"], n, args, kw)
    if n == "get":
        return [(s, x if x is not None else (args[1] if len(args) > 1 else NONE))
                for s, x in self.ldict_get(st, o, args[0])]
    if ("d", o.id) in st.frozen and n in ("pop", "update", "setdefault", "clear"):
        raise E.NotSummarisable("dict")
    if n == "update":
        v = args[0] if args else None
        if isinstance(v, LDict) and st.dicts[v.id]["base"] is None and st.dicts[v.id].get("ref") is None:
            st.lists[("d", o.id)] = st.lists[("d", o.id)] + st.lists[("d", v.id)]
            return [(st, NONE)]
        T = d["T"] or ("dict", "str", "obj")
        if isinstance(v, SeqV):
            T = d["T"] or ("dict", "str", "str")
            arrs = [fresh("upd", s) for _, s in self.dict_keys(T)]
            st.lists[("d", o.id)] = []
            st.dicts[o.id] = {"base": tuple(arrs), "T": T, "ref": None}
            return [(st, NONE)]
        b = self.dict_view(st, v, T)
        if b is None:
            raise E.Unsupported("dict.update(%r)" % (v,))
        a = self.dict_view(st, o, T)
        st.lists[("d", o.id)] = []
        st.dicts[o.id] = {"base": tuple(self.merge_arrays(st, a, b)), "T": T, "ref": None}
        return [(st, NONE)]
    if n == "pop":
        T = d["T"] or ("dict", "str", "obj")
        a = self.dict_view(st, o, T)
        kt = self.pack(st, T[1], args[0])[0]
        out = []
        for s, b in self.branch(st, Select(a[0], kt)):
            if b:
                s.lists[("d", o.id)] = []
                s.dicts[o.id] = {"base": tuple([Store(a[0], kt, FALSE)] + list(a[1:])), "T": T,
                                 "ref": None}
                out += self.unpack(s, T[2], [Select(x, kt) for x in a[1:]])
            else:
                out.append((s, args[1] if len(args) > 1 else Raise(Ex("KeyError"))))
        return out
    if n in ("items", "values", "keys"):
        items = self.ditems(st, o.id)
        d = st.dicts[o.id]
        if d["base"] is None:
            f = {"items": lambda k, v: Tup([k, v]), "values": lambda k, v: v, "keys": lambda k, v: k}[n]
            return [(st, SeqV([Item(f(k, v)) for k, v in items]))]
        T = d["T"]
        arrs = self.dict_view(st, o, T)

        def elem(st2, k):
            kv = Val(T[1], k)
            if n == "keys":
                return [(st2, kv)]
            res = self.unpack(st2, T[2], [Select(a, k) for a in arrs[1:]])
            return res if n == "values" else [(s3, Tup([kv, v])) for s3, v in res]
        src = Src("dict", tuple(arrs), SORT[T[1]], lambda k: Select(arrs[0], k), elem)
        return [(st, SeqV([self.src_comp(st, src)]))]
    if n == "copy":
        return self.b_dict(st, [o], {})
    if n == "setdefault":
        out = []
        for s, x in self.ldict_get(st, o, args[0]):
            if x is None:
                s.lists[("d", o.id)] = s.lists[("d", o.id)] + [Item(Tup([args[0], args[1]]))]
                x = args[1]
            out.append((s, x))
        return out
    raise E.Unsupported("dict.%s" % n)


def m_kids_method(self, st, o, n, args, kw):
    E = _E()
    if n in ("items", "keys", "values"):
        return [(st, SeqV([self.src_comp(st, self.kids_src(st, o.d, n))]))]
    if n == "get":
        t = Select(self.kids_term(st, o.d), args[0].t)
        out = []
        for s, b in self.branch(st, t != null):
            out.append((s, E.ref("VirtualNode", t)) if b else (s, args[1] if len(args) > 1 else NONE))
        return out
    if n == "pop":
        t = Select(self.kids_term(st, o.d), args[0].t)
        out = []
        for s, b in self.branch(st, t != null):
            if b:
                self.site(s, "delkid", E.ref("VirtualDirectory", o.d), args[0], None)
                self.set_kids(s, o.d, None, args[0].t, null)
                out.append((s, E.ref("VirtualNode", t)))
            else:
                out.append((s, args[1] if len(args) > 1 else Raise(Ex("KeyError"))))
        return out
    if n == "clear":
        self.site(st, "clearkids", E.ref("VirtualDirectory", o.d))
        self.set_kids(st, o.d, z3.K(S, null))
        return [(st, NONE)]
    raise E.Unsupported("children.%s" % n)


def m_list_method(self, st, o, n, args, kw):
    E = _E()
    if n == "append":
        self.list_extend(st, o, [Item(args[0])])
        return [(st, NONE)]
    if n == "extend":
        v = args[0]
        if isinstance(v, Gen):
            def h(s, x):
                self.list_extend(s, o, [Item(x)])
                return [E.Out(s, "next")]
            return [(q.st, NONE if q.kind == "next" else Raise(q.val)) for q in v.run(st, h)]
        self.list_extend(st, o, self.iter_chunks(st, v))
        return [(st, NONE)]
    if n in ("sort", "reverse"):
        if o.id in st.frozen:
            raise E.NotSummarisable("sort")
        return [(st, NONE)]
    if n == "pop":
        cs = self.chunks(st, o)
        if not args:
            if cs and isinstance(cs[-1], Item):
                st.lists[o.id] = list(cs[:-1])
                return [(st, cs[-1].v)]
            sl = self.as_sl(st, o)
            if sl is not None:
                out = []
                for s, b in self.branch(st, L.is_Snoc(sl)):
                    if b:
                        s.lists[o.id] = [SLs(L.init(sl))]
                        out.append((s, E.vstr(L.last(sl))))
                    else:
                        out.append((s, Raise(Ex("IndexError"))))
                return out
        raise E.Unsupported("list.pop")
    if n == "copy":
        return [(st, self.new_list(st, self.chunks(st, o)))]
    if n == "clear":
        if o.id in st.frozen:
            raise E.NotSummarisable("clear")
        st.lists[o.id] = []
        return [(st, NONE)]
    if n == "insert":
        raise E.Unsupported("list.insert")
    raise E.Unsupported("list.%s" % n)


def m_hlist_method(self, st, o, n, args, kw):
    E = _E()
    if n == "append":
        T = o.T
        nm = tname(T)
        if nm + ".len" in st.frozen:
            raise E.NotSummarisable("list")
        ln = Select(self.harr(st, nm + ".len", z3.IntSort()), o.t)
        ts = self.pack(st, T[1], args[0])
        for i, (s, t) in enumerate(zip(flat(T[1]), ts)):
            key = "%s.el%d" % (nm, i)
            a = self.harr(st, key, z3.ArraySort(z3.IntSort(), s))
            st.heap[key] = Store(a, o.t, Store(Select(a, o.t), ln, t))
        st.heap[nm + ".len"] = Store(self.harr(st, nm + ".len", z3.IntSort()), o.t, ln + 1)
        return [(st, NONE)]
    raise E.Unsupported("list.%s" % n)


# ---------------------------------------------------------------- library calls
def m_call_external(self, st, name, args, kw):
    E = _E()
    base = name.split(".")[-1]
    if name in ("time.time", "time.time.time"):
        return [(st, Val("real", fresh("now", z3.RealSort())))]
    if name == "re.compile":
        s2 = st.copy()
        f = z3.Function("rx_compile", S, z3.IntSort(), Obj)
        fl = args[1].t if len(args) > 1 and isinstance(args[1], Val) and args[1].T == "int" else IntVal(0)
        t = f(args[0].t, fl)
        return [(st, Val("obj", t)), (s2, Raise(Ex(None, outside=("SandboxError",))))]
    if name == "dataclasses.replace":
        if isinstance(args[0], Inst):
            i = self.nid()
            st.insts[i] = dict(st.insts[args[0].id], **kw)
            return [(st, Inst(i, args[0].cls))]
        raise E.Unsupported("replace")
    if name == "re.sub":
        lab = E.labs(*[a for a in args if isinstance(a, Val)])
        return [(st, Val("str", fresh("resub", S), lab)), (st.copy(), Raise(Ex(None)))]
    if name == "re.escape":
        return [(st, _s(st, args[0].lab))]
    if name in ("contextlib.suppress",):
        return [(st, Bound(Tup(args), "suppress"))]
    if name in ("contextlib.redirect_stdout", "contextlib.redirect_stderr", "contextlib.nullcontext"):
        return [(st, Bound(NONE, "nullctx"))]
    if name in ("fnmatch.fnmatch", "fnmatch.fnmatchcase"):
        return [(st, E.vbool(z3.Function("fn_" + base, S, S, z3.BoolSort())(args[0].t, args[1].t)))]
    if name in ("io.StringIO",):
        return [(st, Val("obj", fresh("buffer", Obj)))]
    if name.endswith("tempfile.TemporaryDirectory"):
        return [(st, Bound(Val("str", fresh("tmpdir", S)), "nullctx"))]
    if name == "subprocess.run":
        self.site(st, "subprocess", *args)
        st.trace = st.trace + [Item(Tup([E.vstr("subprocess")]))]
        s2 = st.copy()
        return [(st, Val("obj", fresh("completed", Obj))), (s2, Raise(Ex(None)))]
    if name == "os.environ.copy":
        return [(st, Val("obj", fresh("environ", Obj)))]
    if name in ("inspect.signature",):
        s2 = st.copy()
        return [(st, Val("obj", fresh("sig", Obj))), (s2, Raise(Ex(None)))]
    if name in ("datetime.datetime.fromtimestamp",):
        s2 = st.copy()
        return [(st, Val("obj", fresh("dt", Obj))), (s2, Raise(Ex(None)))]
    if name in ("urllib.parse.parse_qs",):
        s2 = st.copy()
        return [(st, Val(("dict", "str", ("list", "str")), fresh("qs", Ref))), (s2, Raise(Ex("ValueError")))]
    if name in ("urllib.parse.unquote",):
        return [(st, _s(st, args[0].lab))]
    if name == "shlex.shlex":
        raise E.Unsupported("shlex")
    raise E.Unsupported("call of %s" % name)
