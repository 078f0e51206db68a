"""Calls: inlining, contracts, constructors."""
import ast
import z3
from z3 import And, Or, Not, Implies, If, BoolVal, IntVal, Select, Store
from . import logic as L
from .logic import S, Ref, Obj, null, lit, fresh
from .values import *


def _E():
    from . import engine
    return engine


def qualname(f):
    return "%s.%s" % (f.cls, f.name) if f.cls else "%s:%s" % (f.module, f.name)


def m_call(self, st, fv, args, kwargs, e=None):
    """[(st, V | Raise)]"""
    E = _E()
    if isinstance(fv, Func):
        return self.call_func(st, fv, args, kwargs)
    if isinstance(fv, Cl):
        return self.construct(st, fv, args, kwargs)
    if isinstance(fv, Bi):
        f = getattr(self, "b_" + fv.name, None)
        if f is None:
            raise E.Unsupported("builtin %s" % fv.name)
        return f(st, args, kwargs)
    if isinstance(fv, Bound):
        return self.call_method(st, fv, args, kwargs)
    if isinstance(fv, Mod):
        return self.call_external(st, fv.name, args, kwargs)
    if isinstance(fv, Val) and (fv.T == "obj" or fv.T in FUNS):
        return self.call_unknown(st, fv, args, kwargs)
    raise E.Unsupported("call of %r" % (fv,))


provtext = z3.Function("provtext", Obj, L.Path, S)


def m_call_unknown(self, st, fv, args, kwargs):
    """A callback supplied by the user: may raise anything, assumed not to change this state."""
    self.assumed.add("callbacks (hooks, providers, loaders, registered commands) do not modify the modelled state")
    E = _E()
    if fv.T in ("pfun", "lfun"):
        st.ghost["provided"] = st.ghost.get("provided", ()) + ((fv, tuple(args)),)
        s2 = st.copy()
        if fv.T == "pfun":
            self.assumed.add("a content provider gives the same text whenever it is asked for the same path during "
                             "one operation, and fails with an exception otherwise")
            a = args[0]
            p = st.insts[a.id]["path"].t if isinstance(a, Inst) and "path" in st.insts[a.id] else fresh("p", L.Path)
            r = Val("str", provtext(fv.t, p))
        else:
            rt = st.ghost.get("loader_result")
            if rt is None:
                raise E.Unsupported("calling a directory provider")
            return rt(self, st, fv, args) + [(s2, Raise(Ex(None, outside=("SandboxError",))))]
        return [(st, r), (s2, Raise(Ex(None)))]
    st.trace = st.trace + [Item(Tup([vs_fun(fv)] + [a for a in args]))]
    s2 = st.copy()
    self.assumed.add("hooks do not fail with sandbox errors")
    rt = st.ghost.get("call_result")
    if rt is not None:
        res = rt(self, st, fv, args)
        if res is not None:
            return res + [(s2, Raise(Ex(None)))]
    return [(st, Val("obj", fresh("callres", Obj))), (s2, Raise(Ex(None, outside=("SandboxError",))))]


def vs_fun(fv):
    return Val("fun", fv.t)


def m_is_generator(self, node):
    if isinstance(node, ast.Lambda):
        return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def m_call_func(self, st, f, args, kwargs):
    E = _E()
    q = qualname(f)
    self.called.add(q)
    c = self.contracts.get(q)
    if c is not None and f.fid is None and self.use_contract(q, c):
        res = c.apply(self, st, f, args, kwargs)
        if res is not NotImplemented:
            return res
    if f.fid is not None and self.verifying is not None and self.verifying.local is not None and self.self_recursive(f):
        lc = self.verifying.local(self, f)
        if lc is not None:
            if q not in self.local_active and q not in self.local_done:
                s0 = self.alone(st, f, lc)
                if s0 is not None:
                    self.local_done.add(q)
                self.verify_local(st if s0 is None else s0, f, lc, q)
            if lc.gen:
                return lc.apply(self, st, f, args, kwargs)
            out = []
            for s, v in lc.apply(self, st, f, args, kwargs):
                for i in self.outer_lists(s, f):        # it may add strings to the lists around it
                    s.lists[i] = list(s.lists[i]) + [E.SLs(L.fresh("added", L.SL))]
                out.append((s, v))
            return out
    env = self.bind_params(st, f, args, kwargs)
    out = []
    for s, env1 in env:
        if isinstance(env1, Raise):
            out.append((s, env1))
            continue
        if isinstance(f.node, ast.Lambda):
            nf = self.nid()
            s.envs[nf] = env1
            out += self.ev(f.node.body, s, nf)
            continue
        if self.is_generator(f.node):
            g = self.make_gen(f, env1, q)
            if any("contextmanager" in ast.dump(d) for d in f.node.decorator_list):
                out.append((s, CtxMgr(g)))
            else:
                out.append((s, g))
            continue
        decos = [ast.dump(d) for d in f.node.decorator_list]
        if any("staticmethod" not in d and "property" not in d for d in decos):
            raise E.Unsupported("decorator on %s" % q)
        nf = self.nid()
        s.envs[nf] = env1
        hs = s.handlers
        s.handlers = ()
        self.enter(q)
        try:
            outs = self.ex(f.node.body, s, nf)
        finally:
            self.leave()
        for o in outs:
            o.st.handlers = hs
            if o.kind == "next":
                out.append((o.st, NONE))
            elif o.kind == "ret":
                out.append((o.st, o.val))
            elif o.kind == "exc":
                out.append((o.st, Raise(o.val)))
            else:
                raise E.Unsupported("control flow out of %s" % q)
    return out


def m_self_recursive(self, f):
    return any(isinstance(n, ast.Name) and n.id == f.name for b in getattr(f.node, "body", ()) if isinstance(b, ast.AST)
               for n in ast.walk(b))


def m_outer_lists(self, st, f):
    """The lists of the enclosing functions that an inner function names."""
    out = []
    for n in sorted({n.id for b in f.node.body for n in ast.walk(b) if isinstance(n, ast.Name)}):
        k = f.fid
        while k is not None:
            env = st.envs[k]
            if n in env:
                if isinstance(env[n], LList) and env[n].id not in out:
                    out.append(env[n].id)
                break
            k = env.get("@closure")
    return out


def m_captured(self, st, f):
    """What the free names of an inner function stand for."""
    out = {}
    for n in sorted({n.id for b in f.node.body for n in ast.walk(b) if isinstance(n, ast.Name)}):
        k = f.fid
        while k is not None:
            if n in st.envs[k]:
                v = st.envs[k][n]
                if not isinstance(v, LList) and not (isinstance(v, Func) and v.node is f.node):
                    out[n] = v
                break
            k = st.envs[k].get("@closure")
    return out


def m_alone(self, st, f, lc):
    """The entry state of the function under verification, when the inner function depends on nothing else: what is proved
    there holds in every state that satisfies the invariants."""
    cap = self.captured(st, f)
    if not lc.alone or self.verifying.requires or self.outer_lists(st, f) or not all(
            isinstance(v, Val) and isinstance(self.args.get(n), Val) and v.t.eq(self.args[n].t) for n, v in cap.items()):
        return None
    s = st.copy()
    e = self.entry
    s.heap, s.pc, s.alloc, s.trace = dict(e.heap), list(e.pc), e.alloc, list(e.trace)
    return s


def m_verify_local(self, st, f, lc, q):
    """Verifies a recursive inner function against its contract, for arbitrary arguments, in the context where it is called."""
    E = _E()
    from .contract import X, call_body, finish, key_sort
    from .loops import snap, diff
    from .specs import LOAD
    s = st.copy()
    s.handlers = ()
    self.havoc_load(s)
    a = {}
    for nm, T in lc.params:
        (s, a[nm]), = lc.sym(self, s, T, nm)
    x0 = X(self, s, s, a, contract=lc)
    for nm, g, *rest in lc.requires(x0) if lc.requires else ():
        s.assume(g)
    outer = [] if lc.gen else self.outer_lists(s, f)
    for i in outer:
        s.lists[i] = [E.SLs(L.fresh("before", L.SL))]
    pre = s.copy()
    b = snap(s)
    self.local_active.append(q)
    saved, self.inlining = self.inlining, []
    try:
        for s2, v in call_body(self, s, f, dict(a), q):
            o = E.Out(s2, "next")
            d = diff(b, [o], ("next",))
            if d.locals or d.dicts or d.insts or not set(d.lists) <= set(outer) or any(
                    c is None or not self.only_strings(c) for cs in d.lists.values() for c in cs):
                raise E.Unsupported("%s changes the variables around it" % q)
            finish(self, lc, pre, s2, a, v)
    finally:
        self.local_active.pop()
        self.inlining = saved


def m_only_strings(self, chunks):
    return all(self.chunk_type(c) == "str" for c in chunks)


def m_havoc_load(self, s):
    """Directories may have been loaded meanwhile."""
    from .contract import key_sort, closed
    from .specs import LOAD
    r = z3.Const("r", L.Ref)
    for k in sorted(LOAD):
        srt = key_sort(self, k)
        old = self.harr(s, k, srt)
        s.heap[k] = L.fresh(k.replace(".", "_"), z3.ArraySort(L.Ref, srt))
        closed(s, k, s.heap[k])
        if k == "N._loaded":
            s.assume(z3.ForAll([r], z3.Implies(z3.Select(old, r), z3.Select(s.heap[k], r)),
                               patterns=[z3.Select(s.heap[k], r), z3.Select(old, r)]))


def m_use_contract(self, q, c):
    return getattr(c, "usable", True)


def m_bind_params(self, st, f, args, kwargs, defaults_only=False):
    """[(st, env | Raise)]"""
    E = _E()
    a = f.node.args
    env = {"@module": f.module, "@closure": f.fid, "@self": f.self_, "@cls": f.cls}
    if f.fid is not None:
        o = st.envs[f.fid]
        env["@self"], env["@cls"] = o.get("@self"), o.get("@cls")
    names = [x.arg for x in a.posonlyargs + a.args]
    args = list(args)
    if any(isinstance(x, tuple) for x in args):
        raise E.Unsupported("star argument")
    if f.self_ is not None:
        args = [f.self_] + args
    elif f.cls is not None and names and names[0] in ("self", "cls") and not args:
        raise E.Unsupported("unbound method")
    kwargs = dict(kwargs)
    if len(args) > len(names):
        if a.vararg is None:
            return [(st, Raise(Ex("TypeError")))]
        env[a.vararg.arg] = Tup(args[len(names):])
        args = args[:len(names)]
    elif a.vararg is not None:
        env[a.vararg.arg] = Tup([])
    for n, v in zip(names, args):
        env[n] = v
    need = []
    nd = len(a.defaults)
    for i, n in enumerate(names):
        if n in env:
            continue
        if n in kwargs:
            env[n] = kwargs.pop(n)
        elif i >= len(names) - nd:
            need.append((n, a.defaults[i - (len(names) - nd)]))
        else:
            return [(st, Raise(Ex("TypeError")))]
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg in kwargs:
            env[x.arg] = kwargs.pop(x.arg)
        elif d is not None:
            need.append((x.arg, d))
        else:
            return [(st, Raise(Ex("TypeError")))]
    if kwargs:
        if a.kwarg is None:
            return [(st, Raise(Ex("TypeError")))]
        env[a.kwarg.arg] = self.new_dict(st, [(_E().vstr(k), v) for k, v in kwargs.items()])
    elif a.kwarg is not None:
        env[a.kwarg.arg] = self.new_dict(st, [])
    res = [(st, env)]
    for n, d in need:
        nxt = []
        for s, en in res:
            df = self.nid()
            s.envs[df] = {"@module": f.module, "@closure": f.fid}
            for s2, v in self.ev(d, s, df):
                if isinstance(v, Raise):
                    raise E.Unsupported("default value")
                e2 = dict(en)
                e2[n] = v
                nxt.append((s2, e2))
        res = nxt
    return res


def m_construct(self, st, cl, args, kwargs):
    E = _E()
    n = cl.name
    f = getattr(self, "new_" + n, None)
    if f is not None:
        return f(st, args, kwargs)
    if n in self.prog.classes:
        k = self.prog.classes[n]
        if "Exception" in self.prog.mro(n):
            return [(st, Ex(n, args[0] if args else None))]
        if self.fam(n) is not None:
            r = E.ref(n, self.alloc(st, n))
            inst = r
        else:
            i = self.nid()
            st.insts[i] = {}
            inst = Inst(i, n)
        return [(s, x if isinstance(x, Raise) else inst)
                for s, x in self.run_init(st, n, inst, args, kwargs)]
    from .source import BUILTIN_EXC
    if n in BUILTIN_EXC:
        return [(st, Ex(n, args[0] if args else None))]
    raise E.Unsupported("constructor %s" % n)


def m_run_init(self, st, cls, inst, args, kwargs):
    """[(st, NONE | Raise)]"""
    E = _E()
    hit = self.prog.find_method(cls, "__init__")
    owner = next((c for c in self.prog.mro(cls) if c in self.prog.classes and (
        "__init__" in self.prog.classes[c].methods or self.prog.classes[c].dataclass)), None)
    if owner is None:
        return [(st, NONE)]
    k = self.prog.classes[owner]
    if "__init__" in k.methods:
        return self.call_func(st, Func(k.methods["__init__"], k.module, self_=inst, cls=owner), args, kwargs)
    return self.dataclass_init(st, owner, inst, args, kwargs)


def m_dataclass_init(self, st, cls, inst, args, kwargs):
    E = _E()
    fields = []
    for c in reversed(self.prog.mro(cls)):
        k = self.prog.classes.get(c)
        if k is not None and k.dataclass:
            for nm, d, ann in k.fields:
                fields = [x for x in fields if x[0] != nm] + [(nm, d, k.module)]
    kwargs = dict(kwargs)
    vals = {}
    if len(args) > len(fields):
        return [(st, Raise(Ex("TypeError")))]
    for (nm, _, _), v in zip(fields, args):
        vals[nm] = v
    for nm in list(kwargs):
        vals[nm] = kwargs.pop(nm)
    res = [st]
    final = []
    for nm, d, mod in fields:
        nxt = []
        for s in res:
            if nm in vals:
                opts = [(s, vals[nm])]
            elif d is None:
                return [(s, Raise(Ex("TypeError")))]
            else:
                opts = self.field_default(s, d, mod)
            for s2, v in opts:
                if isinstance(v, Raise):
                    raise E.Unsupported("field default")
                for o in self.setattr(s2, inst, nm, v):
                    if o.kind != "next":
                        raise E.Unsupported("field init")
                    nxt.append(o.st)
        res = nxt
    out = []
    for s in res:
        hit = self.prog.find_method(cls, "__post_init__")
        if hit is not None:
            k = self.prog.classes[hit[0]]
            out += self.call_func(s, Func(hit[1], k.module, self_=inst, cls=hit[0]), [], {})
        else:
            out.append((s, NONE))
    return out


def m_field_default(self, st, d, module):
    fid = self.nid()
    st.envs[fid] = {"@module": module, "@closure": None}
    if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "field":
        for k in d.keywords:
            if k.arg == "default_factory":
                return self.bind(self.ev(k.value, st, fid), lambda s, f: self.call(s, f, [], {}))
            if k.arg == "default":
                return self.ev(k.value, st, fid)
        return [(st, Raise(Ex("TypeError")))]
    return self.ev(d, st, fid)
