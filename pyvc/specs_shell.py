"""Contracts: the shell's dispatcher, its output limit and its pipelines."""
from .specs import *
from .specs_fs import *
from .specs_ops import *
from .contract import all_keys, havoc_all

SHELL = ("ref", "SandboxShell")
RES = ("ref", "CommandResult")
CTX = ("ref", "CommandContext")
GHOST = {"H.@pipe", "H.@last", "H.@rtext", "H.@read", "H.@owed", "H.@failed"}
# what a command may change: everything but the shell's configuration and the parsed command line
KEEP = ("G.", "L.", "list<ref<CommandSpec>>.", "H.vfs", "H.commands", "H.py_exec", "H.view", "H.allowed_commands",
        "H.max_output_bytes", "H.host_fallback", "H._handler_accepts_ctx", "H.command_docs", "H.@", "H.env")
ANY = {k for k in all_keys() if not k.startswith(KEEP)}


def result(h, r):
    return h.f("R.stdout", r), h.f("R.stderr", r), h.f("R.exit_code", r)


def limit_text(n):
    return L.scat(L.scat(lit("Output limit ("), L.istr(n)), lit(" bytes) exceeded"))


def limited(h, sh, r):
    """The result keeps the shell's output limit."""
    out, err, code = result(h, r)
    n = h.f("H.max_output_bytes#1", sh)
    return Or(h.f("H.max_output_bytes", sh), L.blen(out) + L.blen(err) <= n,
              And(out == lit(""), err == limit_text(n), code != 0))


def limiting(x):
    h, sh, r, q = post(x), x.t("self"), x.t("result"), x.res.t
    out, err, code = result(pre(x), r)
    o2, e2, c2 = result(h, q)
    n = h.f("H.max_output_bytes#1", sh)
    fits = Or(h.f("H.max_output_bytes", sh), L.blen(out) + L.blen(err) <= n)
    return [("a result that fits is delivered as it is", Implies(fits, And(o2 == out, e2 == err, c2 == code))),
            ("one that does not is replaced", Implies(Not(fits), And(o2 == lit(""), e2 == limit_text(n), c2 != 0)))]


def bounded(x, *a):
    return limited(post(x), x.t("self"), x.res.t)


def rkept(x):
    """Results that existed keep their fields."""
    r = Const("r", Ref)
    return And([ForAll([r], Implies(Select(x.pre.alloc, r), post(x).f(k, r) == pre(x).f(k, r)), patterns=[post(x).f(k, r)])
                for k in ("R.stdout", "R.stderr", "R.exit_code")])


NEWRES = ("CommandResult", "<collection>")
contract("SandboxShell._enforce_output_limit", [("self", SHELL), ("result", RES)], ret=RES, alloc=NEWRES,
         mods={"R.stdout", "R.stderr", "R.exit_code"},
         covers=[("fits", lambda x: x.res.t == x.t("result")), ("replaced", lambda x: x.res.t != x.t("result"))],
         ensures=[ens("limit", "C17 C18", limiting), ens("other results keep their fields", "C17 C18", rkept)],
         xprops="C18 C17")

# ---------------------------------------------------------------- one command
isexp = z3.Function("isexp", S, S, z3.BoolSort())


def cur(x):
    return x.pre.ghost.get("cur:CommandSpec")


def run_requires(x):
    if x.eng.verifying is x.contract:
        return []
    h, sh = pre(x), x.t("self")
    c = cur(x)
    ctx = x["ctx"].t
    stdin = None if c is None else h.f("T.stdin", ctx) == If(h.f("G.stdin", c), h.f("H.@pipe", sh), h.f("H.@rtext", sh))
    red = None if c is None else Or(h.f("G.stdin", c), h.f("H.@read", sh))
    return [("nothing failed before", Not(h.f("H.@failed", sh)), "C18"),
            ("redirected output was written", Not(h.f("H.@owed", sh)), "C18"),
            ("redirected input was read", red, "C18"),
            ("the command gets the previous output or the redirected file", stdin, "C18")]


def run_ghost(x):
    if x.exc is not None:
        return []
    a, b, sh = pre(x), post(x), x.t("self")
    out, err, code = result(b, x.res.t)
    c = cur(x)
    redirected = fresh("redirected", z3.BoolSort()) if c is None else Not(a.f("G.stdout", c))
    return [b.f("H.@last", sh) == out, b.f("H.@failed", sh) == (code != 0), b.f("H.@owed", sh) == And(code == 0, redirected),
            Implies(And(code == 0, Not(redirected)), b.f("H.@pipe", sh) == out), Not(b.f("H.@read", sh))]


def command_result(eng, st, fv, args):
    """What a registered command may do: change anything but the shell's configuration, and return a result, nothing, or a text
    (which stands for any other value, of which only the text is used)."""
    eng.assumed.add("registered commands do not change the shell's own configuration, and leave the tree intact")
    st.ghost["inv"] = None
    havoc_all(eng, st, ANY)
    s2, s3 = st.copy(), st.copy()
    r = fresh("res", Ref)
    st.assume(r != null, Select(st.alloc, r), L.clsof(r) == L.cls_id("CommandResult"))
    return [(st, Val(RES, r)), (s2, NONE), (s3, Val("str", fresh("res", S)))]


def run_setup(x):
    x.pre.ghost["call_result"] = command_result


def permitted(h, sh, name):
    al = h.f("H.allowed_commands", sh)
    return Or(al == null, Select(h.sset(al), name))


def same_words(eng, st, a, b):
    if a is b:
        return True
    try:
        ca, cb = eng.iter_chunks(st, a), eng.iter_chunks(st, b)
    except Exception:
        return False
    return len(ca) == len(cb) == 1 and isinstance(ca[0], Comp) and isinstance(cb[0], Comp) and (
        lambda c: c is not None and L.valid(eng.hyps(st), c, 1000)[0] == "unsat")(ca[0].src.same(cb[0].src)) and len(ca[0].alts) == 1


def run_final(eng, x):
    """What may be started, and by what."""
    h, sh, name = pre(x), x.t("self"), x.t("name")
    d = h.f("H.commands", sh)
    known = Select(h.f("dict<str,fun>.dom", d), name)
    hits = x.post.trace[len(x.pre.trace):]
    for c in hits:
        if not isinstance(c, Item) or not isinstance(c.v, Tup) or not isinstance(c.v.items[0], Val):
            s = x.post.copy()
            s.imprecise = True
            eng.oblige(s, "what is started", ("C16",), FALSE)
            continue
        f, args = c.v.items[0], c.v.items[1:]
        eng.oblige(x.post, "only a permitted command is started", ("C16",), permitted(h, sh, name))
        if f.T == "str":        # the host
            eng.oblige(x.post, "the host is used only for an unknown command and when switched on", ("C16",),
                       And(Not(known), h.f("H.host_fallback", sh)))
        else:
            eng.oblige(x.post, "the command of that name is started", ("C16",), And(
                known, f.t == Select(h.f("dict<str,fun>.val0", d), name)))
            same = bool(args) and same_words(eng, x.post, args[0], x["args"]) and (len(args) == 1 or args[1] is x["ctx"])
            s = x.post if same else x.post.copy()
            s.imprecise |= not same
            eng.oblige(s, "with its arguments and context", ("C18",), BoolVal(same))
    if len(hits) > 1:
        eng.oblige(x.post, "at most one command is started", ("C16", "C18"), FALSE)
    if x.exc is None:
        eng.oblige(x.post, "a command that is not permitted gives an error", ("C16", "C18"), Or(
            permitted(h, sh, name), result(post(x), x.res.t)[2] != 0))
        eng.oblige(x.post, "an unknown command without host gives an error", ("C16", "C18"), Or(
            known, h.f("H.host_fallback", sh), result(post(x), x.res.t)[2] != 0))


contract("SandboxShell._run_host_process", [("self", SHELL), ("command_tokens", ("list", "str")), ("path", ("opt", "str")),
                                            ("stdin", ("opt", "str")), ("env", ("opt", ("dict", "str", "str")))],
         ret=RES, mods=ANY, alloc="any", raises={"?": dict(mods=ANY, alloc="any", outside=())},
         trace=lambda x: [Item(Tup([Val("str", lit("host"))]))], trace_exc=True,
         trusted="starts a host process; what it does there is outside the property")

contract("SandboxShell._run_command", [("self", SHELL), ("name", "str"), ("args", ("list", "str")), ("ctx", CTX)], ret=RES,
         mods=ANY, alloc="any", setup=run_setup, final=run_final, trace_check=False, requires=run_requires, ghost=run_ghost,
         gmods=GHOST, raises={"?": dict(mods=ANY, alloc="any", outside=())}, own="C16 C18", frame="C16 C18", entry=True,
         covers=[("runs", lambda x: BoolVal(len(x.post.trace) > len(x.pre.trace))),
                 ("refused", lambda x: Not(permitted(pre(x), x.t("self"), x.t("name"))))])

# ---------------------------------------------------------------- expansion and redirection
contract("SandboxShell._expand_vars", [("self", SHELL), ("token", "str"), ("env", ("dict", "str", "str"))], ret="str",
         ensures=[ens("expansion", "*", lambda x: isexp(x.res.t, x.t("token")))],
         trusted="substitution by a regular expression: a function of its arguments")
contract("SandboxShell._expand_args", [("self", SHELL), ("args", ("list", "str")), ("env", ("dict", "str", "str")),
                                       ("command_name", "str")], ret=("list", "str"), mods=LOAD | {
                                           "list<str>.len", "list<str>.el0"}, alloc=True,
         raises={"?": dict(mods=LOAD | {"list<str>.len", "list<str>.el0"}, alloc=True, outside=())},
         trusted="expands words; which words is outside the property")


def read_requires(x):
    if x.eng.verifying is x.contract:
        return []
    c = cur(x)
    return [("the file named by the redirection is read", None if c is None else And(
        Not(pre(x).f("G.stdin", c)), isexp(x.t("path"), pre(x).f("G.stdin#1", c))), "C18")]


def read_ghost(x):
    if x.exc is not None:
        return []
    a, b, sh = pre(x), post(x), x.t("self")
    return [b.f("H.@rtext", sh) == x.res.t, b.f("H.@read", sh)] + [b.f(k, sh) == a.f(k, sh) for k in (
        "H.@pipe", "H.@last", "H.@owed", "H.@failed")]


def write_requires(x):
    if x.eng.verifying is x.contract:
        return []
    h, sh = pre(x), x.t("self")
    c = cur(x)
    return [("the file named by the redirection is written", None if c is None else And(
                Not(h.f("G.stdout", c)), isexp(x.t("path"), h.f("G.stdout#1", c))), "C18"),
            ("with the command's output", And(h.f("H.@owed", sh), x.t("content") == h.f("H.@last", sh)), "C18"),
            ("replaced or extended as asked", None if c is None else x.t("append") == h.f("G.append", c), "C18")]


def write_ghost(x):
    if x.exc is not None:
        return []
    a, b, sh = pre(x), post(x), x.t("self")
    return [Not(b.f("H.@owed", sh)), b.f("H.@pipe", sh) == lit("")] + [b.f(k, sh) == a.f(k, sh) for k in (
        "H.@read", "H.@last", "H.@rtext", "H.@failed")]


contract("SandboxShell._read_from_path", [("self", SHELL), ("path", "str")], ret="str", mods=ANY, alloc="any",
         requires=read_requires, ghost=read_ghost, gmods=GHOST, raises={"?": dict(mods=ANY, alloc="any", outside=())},
         trusted="to be verified")
contract("SandboxShell._write_to_path", [("self", SHELL), ("path", "str"), ("content", "str"), ("append", "bool")],
         mods=ANY, alloc="any", requires=write_requires, ghost=write_ghost, gmods=GHOST,
         raises={"?": dict(mods=ANY, alloc="any", outside=())}, trusted="to be verified")

contract("shell_parser:parse_pipeline", [("command_line", "str")], ret=("ref", "Pipeline"), alloc="any", mods={
    "G.name", "G.args", "G.assignments", "G.stdin", "G.stdout", "G.append", "L.commands", "list<ref<CommandSpec>>.len",
    "list<ref<CommandSpec>>.el0", "list<str>.len", "list<str>.el0", "dict<str,str>.dom", "dict<str,str>.val0"},
    raises={"?": dict(alloc="any", outside=())},
    trusted="the tokeniser is the standard library's; which words it finds is outside the property")


# ---------------------------------------------------------------- pipelines and scripts
def pipe_setup(x):
    h, sh = pre(x), x.t("self")
    x.pre.assume(h.f("H.@pipe", sh) == lit(""), Not(h.f("H.@read", sh)), Not(h.f("H.@owed", sh)), Not(h.f("H.@failed", sh)))


def piped(x):
    h, sh = post(x), x.t("self")
    out, err, code = result(h, x.res.t)
    lim = And(out == lit(""), code != 0)
    return [("a failed command fails the pipeline", Implies(h.f("H.@failed", sh), code != 0)),
            ("the output of the last command is delivered", Implies(code == 0, And(
                out == h.f("H.@pipe", sh), Not(h.f("H.@owed", sh)))))]


def pipe_hints(eng, entry, changed, g, node, b):
    sh = eng.args["self"].t
    out = []

    def c(nm, fn):
        fn.nm = nm
        out.append(fn)
    H0 = lambda st: H(eng, st)
    c("nothing failed", lambda st, g: Not(H0(st).f("H.@failed", sh)))
    c("nothing owed", lambda st, g: Not(H0(st).f("H.@owed", sh)))
    c("line ok", lambda st, g: Not(H0(st).f("H.@down", sh)))
    for k, vs in changed.locals.items():
        allv = vs + [entry.envs[k[0]].get(k[1])]
        if any(isinstance(v, Val) and v.T == "str" for v in allv):
            for gk in ("H.@pipe", "H.@last"):
                def eqp(st, g, k=k, gk=gk):
                    v = st.envs[k[0]].get(k[1])
                    return v.t == H0(st).f(gk, sh) if isinstance(v, Val) and v.T == "str" else None
                c("%s is the pipe" % k[1], eqp)
        if any(isinstance(v, Val) and v.T == RES for v in allv):
            def isr(st, g, k=k):
                v = st.envs[k[0]].get(k[1])
                return And(v.t != null, Select(st.alloc, v.t), L.clsof(v.t) == L.cls_id("CommandResult")) if isinstance(
                    v, Val) and v.T == RES else None

            def okr(st, g, k=k):
                v = st.envs[k[0]].get(k[1])
                return H0(st).f("R.exit_code", v.t) == 0 if isinstance(v, Val) and v.T == RES else None

            def limr(st, g, k=k):
                v = st.envs[k[0]].get(k[1])
                return limited(H0(st), sh, v.t) if isinstance(v, Val) and v.T == RES else None
            c("%s is a result" % k[1], isr)
            c("%s is a success" % k[1], okr)
            c("%s keeps the limit" % k[1], limr)
    return out


LINE = ANY | GHOST | {"H.env"}
LINE = LINE | {"G.name", "G.args", "G.assignments", "G.stdin", "G.stdout", "G.append", "L.commands", "list<ref<CommandSpec>>.len",
               "list<ref<CommandSpec>>.el0"}


def line_requires(x):
    if x.eng.verifying is x.contract:
        return []
    return [("no line runs after a failed one", Not(pre(x).f("H.@down", x.t("self"))), "C18")]


def line_ghost(x):
    d = post(x).f("H.@down", x.t("self"))
    return [d] if x.exc is not None else [d == (result(post(x), x.res.t)[2] != 0)]


contract("SandboxShell._exec_pipeline", [("self", SHELL), ("command", "str")], ret=RES, mods=LINE, alloc="any", setup=pipe_setup,
         hints=pipe_hints, requires=line_requires, ghost=line_ghost, gmods={"H.@down"}, frame="C16 C17 C18",
         ensures=[ens("pipeline", "C18", piped)], raises={"?": dict(mods=LINE, alloc="any", outside=())}, own="C16")


def exec_setup(x):
    h, sh = pre(x), x.t("self")
    x.eng.assumed.add("an output limit is not negative")
    x.pre.assume(Not(h.f("H.@down", sh)), Or(h.f("H.max_output_bytes", sh), h.f("H.max_output_bytes#1", sh) >= 0))


contract("SandboxShell.exec", [("self", SHELL), ("command", "str")], ret=RES, mods=LINE | {"H.@down"}, alloc="any", setup=exec_setup,
         hints=pipe_hints, xprops="C18", frame="C16 C17 C18", own="C16",
         ensures=[ens("the output limit is kept", "C17", bounded)])
