"""Contracts: the Python executor."""
import ast
from .specs import *

EXEC = ("ref", "PythonExecutor")
DO = ("dict", "str", "obj")
CURATED = """abs all any bool dict enumerate float int len list map max min print range repr reversed round set sorted str sum
tuple zip""".split()
BK = lit("__builtins__")
unbox = z3.Function("unbox_Ref", Obj, Ref)


def arrs(eng, st, r):
    return eng.dict_arrays(st, Val(DO, r))


def module_dicts(x):
    """Dictionaries the module builds when it is imported, with the contents their displays give them (nothing changes them later:
    the contracts of the two methods say so)."""
    eng, s = x.eng, x.pre
    out = []
    for nm, hit in eng.prog.names.get("pyexec", {}).items():
        if hit[0] != "const" or not isinstance(hit[2], ast.Dict):
            continue
        r = eng.module_const("pyexec", nm, hit[2]).t
        s.assume(r != null, Select(s.alloc, r))
        d, v = arrs(eng, s, r)
        items = []
        for k, n in zip(hit[2].keys, hit[2].values):
            if not (isinstance(k, ast.Constant) and isinstance(k.value, str) and isinstance(n, ast.Name)):
                items = None
                break
            o = eng.box(eng.global_name(n.id, "pyexec"))
            items.append(k.value)
            s.assume(Select(v, lit(k.value)) == o)
        if items is not None:
            k = Const("k", S)
            s.assume(ForAll([k], Select(d, k) == Or([k == lit(i) for i in items]), patterns=[Select(d, k)]))
        out.append(r)
    return out


def py_setup(x):
    eng, s = x.eng, x.pre
    mods = module_dicts(x)
    own = []
    for f in ("_builtins", "_globals_template"):
        r = H(eng, s).f("X." + f, x.t("self"))
        if x.contract.q.endswith("run"):
            s.assume(r != null, Select(s.alloc, r))
        own.append(r)
    s.ghost["moddicts"] = mods
    if x.contract.q.endswith("run"):
        # the invariant the constructor establishes
        s.assume(own[0] != own[1])
        for m in mods:
            s.assume(own[0] != m, own[1] != m)


def given(x, nm):
    """Arrays (dom, val) of an optional dictionary argument in the pre state."""
    v = x[nm]
    if v is NONE:
        return None
    return arrs(x.eng, x.pre, v.t)


def same_dict(x, r, a, b):
    """Dictionary r has the same contents in both states."""
    k = Const("k", S)
    d1, v1 = arrs(x.eng, a, r)
    d2, v2 = arrs(x.eng, b, r)
    return And(ForAll([k], And(Select(d1, k) == Select(d2, k), Implies(Select(d1, k), Select(v1, k) == Select(v2, k))),
                      patterns=[Select(d2, k), Select(v2, k)]))


def init_post(x):
    e, s = x.eng, x.post
    h = post(x)
    b, t = h.f("X._builtins", x.t("self")), h.f("X._globals_template", x.t("self"))
    d, v = arrs(e, s, b)
    k = Const("k", S)
    g = given(x, "builtins")
    cur = Or([k == lit(n) for n in CURATED])
    inn = cur if g is None else Or(cur, Select(g[0], k))
    val = [Implies(And(k == lit(n), Not(Select(g[0], k)) if g is not None else True), Select(v, k) == Const("builtin_" + n, Obj))
           for n in CURATED]
    if g is not None:
        val.append(Implies(Select(g[0], k), Select(v, k) == Select(g[1], k)))
    return [("exactly the curated builtins and those the host added", ForAll([k], Select(d, k) == inn)),
            ("with their values", ForAll([k], And(val))),
            ("in a dictionary of its own", And(b != null, b != t, Not(Select(x.pre.alloc, b)), *[b != m for m in x.pre.ghost["moddicts"]])),
            ("the globals template is its own dictionary", And(t != null, Not(Select(x.pre.alloc, t))))] + kept_args(x)


def kept_args(x):
    out = []
    for nm in ("builtins", "globals_template", "extra_globals"):
        if nm in x.args and x[nm] is not NONE:
            out.append(("%s given by the host is not changed" % nm, same_dict(x, x[nm].t, x.pre, x.post)))
    for m in x.pre.ghost["moddicts"]:
        out.append(("the module's table is not changed", same_dict(x, m, x.pre, x.post)))
    return out


XM = {"X.vfs", "X._builtins", "X._globals_template", "dict<str,obj>.dom", "dict<str,obj>.val0"}
contract("PythonExecutor.__init__", [("self", EXEC), ("vfs", ("ref", "VirtualFileSystem")), ("builtins", ("opt", DO)),
                                     ("globals_template", ("opt", DO))], mods=XM, alloc=True, setup=py_setup, trace_check=False,
         ensures=[ens("builtins", "C20", init_post)], xprops="C20")


def need(eng, st, name, g):
    eng.oblige(st, name, ("C20",), g)
    st.assume(g)


def run_site(eng, st, what, *a):
    if what != "exec":
        return
    x = eng.py_x
    h = H(eng, x.pre)
    b0, t0 = h.f("X._builtins", x.t("self")), h.f("X._globals_template", x.t("self"))
    k = Const("k", S)
    for env in a:
        need(eng, st, "the environment is made for this run", Not(Select(x.pre.alloc, env.t)))
    d, v = arrs(eng, st, a[0].t)
    r = unbox(Select(v, BK))
    hint = eng._boxf.get("Ref")
    if hint is None:
        hint = eng._boxf.setdefault("Ref", z3.Function("box_Ref", Ref, Obj))
    y = Const("y", Ref)
    st.assume(ForAll([y], unbox(hint(y)) == y, patterns=[hint(y)]))
    need(eng, st, "the snippet gets builtins of its own", And(
        Select(d, BK), Select(v, BK) == hint(r), Not(Select(x.pre.alloc, r)), r != null, r != a[0].t))
    bd, bv = arrs(eng, st, r)
    cd, cv = arrs(eng, x.pre, b0)
    need(eng, st, "they are exactly the executor's", ForAll([k], And(
        Select(bd, k) == Select(cd, k), Implies(Select(cd, k), Select(bv, k) == Select(cv, k)))))
    td, tv = arrs(eng, x.pre, t0)
    g = given(x, "extra_globals")
    inn = Select(td, k) if g is None else Or(Select(td, k), Select(g[0], k))
    val = And(Select(td, k), Select(v, k) == Select(tv, k))
    if g is not None:
        val = Or(val, And(Select(g[0], k), Select(v, k) == Select(g[1], k)))
    need(eng, st, "and otherwise only the names of the templates", ForAll([k], Implies(k != BK, And(
        Select(d, k) == inn, Implies(Select(d, k), val)))))


def run_setup(x):
    py_setup(x)
    x.eng.py_x = X0(x)


class X0:
    def __init__(self, x):
        self.eng, self.pre, self.args, self.a = x.eng, x.pre.copy(), x.args, x

    def t(self, n):
        return self.a.t(n)

    def __getitem__(self, n):
        return self.a[n]


def untouched(x):
    h = pre(x)
    b0, t0 = h.f("X._builtins", x.t("self")), h.f("X._globals_template", x.t("self"))
    return [("the executor's builtins are not changed", same_dict(x, b0, x.pre, x.post)),
            ("the globals template is not changed", same_dict(x, t0, x.pre, x.post))] + kept_args(x)


def run_post(x):
    if x.eng.verifying is not x.contract:
        return []
    g = x.post.ghost.get("execd")
    if g is None:
        return [("the snippet is run", z3.BoolVal(False))]
    k = Const("k", S)
    d, v = arrs(x.eng, x.post, post(x).f("Q.globals", x.res.t))
    return untouched(x) + [("the names the snippet leaves are returned", ForAll([k], Implies(k != BK, And(
        Select(d, k) == Select(g[0], k), Implies(Select(d, k), Select(v, k) == Select(g[1], k))))))]


RM = {"Q.stdout", "Q.globals", "dict<str,obj>.dom", "dict<str,obj>.val0"}
contract("PythonExecutor.run", [("self", EXEC), ("code", "str"), ("filename", "str"), ("extra_globals", ("opt", DO))],
         ret=("ref", "PythonExecutionResult"), mods=RM, alloc=("PythonExecutionResult", "<collection>"), setup=run_setup, site=run_site, trace_check=False,
         ensures=[ens("after the run", "C20", run_post)],
         raises={"?": dict(mods=RM, alloc=("<collection>",), outside=(), ensures=[ens("after a failed run", "C20", lambda x: untouched(x))])})
