"""Contracts: what a shell command may touch and read (visibility and readability)."""
from .specs import *
from .specs_fs import *
from .specs_ops import *
from .specs_shell import *
from .loops import _fresh_consts
from .specs_walk import *

ARGS = ("list", "str")


def others_kids(x, who):
    r = Const("r", Ref)
    return ForAll([r], Implies(And(Select(x.pre.alloc, r), r != who), Select(post(x).K, r) == Select(pre(x).K, r)),
                  patterns=[Select(post(x).K, r)])


contract("VirtualFileSystem._reset_directory", SELFP, mods=LOAD | {"N.kids"}, alloc=NEWNODES, own="C02",
         ensures=[ens("only the directory there forgets its entries", "C02 C07", lambda x: And(
             at_path(x) != null, L.isdir(at_path(x)), others_kids(x, at_path(x))))],
         raises={"NodeNotFound": dict(mods=LOAD), "InvalidOperation": dict(mods=LOAD), **FAILS})
OPS = {"read_file": ("path",), "write_file": ("path",), "append_file": ("path",), "touch": ("path",), "mkdir": ("path",),
       "remove": ("path",), "move": ("source", "target"), "copy": ("source", "target"), "cd": ("path",), "ls": ("path",),
       "tree": ("path",), "search": (), "set_policy": ("path",), "iter_files": ("path",)}
READS = {"_resolve_node", "get_node", "exists", "is_dir", "is_file"}


def shown(h, view, n):
    """The node is not hidden from the view."""
    return And(h.allows(view, h.f("N.policy", n)), h.inside(view, P(1, h.path(n))), Or(L.isdir(n), h.meta_ok(view, n)))


def visible(h, view, vfs, v, named=True):
    n = h.at(vfs, h.canon(vfs, v, named))
    return Or(n == null, shown(h, view, n))


def view_site(eng, st, what, *a):
    """Every operation of the filesystem that a command starts names a visible path; text is read from visible, readable files."""
    if "self" not in eng.args:
        return
    sh = eng.args["self"].t
    h = H(eng, st)
    view, vfs = h.f("H.view", sh), h.f("H.vfs", sh)
    if what == "call":
        c, x = a
        name = c.q.split(".")[-1]
        if c.q.startswith("VirtualFileSystem.") and name in OPS:
            for p in OPS[name]:
                if p in x.args and x[p] is not NONE:
                    instances(eng, st, x[p].t)
                    ok = visible(h, view, x.t("self"), x[p])
                    if name in ("ls", "tree") and x[p].T == "str":      # the working directory, as when no path is given
                        ok = Or(x[p].t == lit(""), ok)
                    eng.oblige(st, "%s: %s is visible" % (name, p), ("C07",), ok)
            if "view" in x.args:
                v = x["view"]
                eng.oblige(st, "%s: the shell's view is applied" % name, ("C07",), FALSE if v is NONE else v.t == view)
        if c.q == "VirtualFile.read":
            n = x.t("self")
            eng.oblige(st, "only the text of a visible file is read", ("C07",), shown(h, view, n))
            if not eng.verifying.q.endswith("_cmd_stat"):       # which tells only the size
                eng.oblige(st, "only the text of a readable file is read", ("C06",), h.readable(n))
    elif what == "text":
        n = a[0].t
        eng.oblige(st, "only the text of a visible file is read", ("C07",), shown(h, view, n))
        eng.oblige(st, "only the text of a readable file is read", ("C06",), h.readable(n))
    elif what == "name" and not eng.verifying.q.endswith("_cmd_stat"):
        eng.oblige(st, "only the name of a visible node is read", ("C07",), shown(h, view, a[0].t))
    elif what in ("setattr", "addkid", "delkid") and isinstance(a[0], Val) and a[0].T[0] == "ref" and a[0].T[1] in (
            "VirtualNode", "VirtualFile", "VirtualDirectory"):
        eng.oblige(st, "only a visible node is changed", ("C07",), shown(h, view, a[0].t))


contract("SandboxShell._ensure_visible_path", [("self", SHELL), ("path", "str")], mods=LOAD,
         ensures=[ens("the path is not hidden", "C07", lambda x: visible(
             pre(x), pre(x).f("H.view", x.t("self")), pre(x).f("H.vfs", x.t("self")), x["path"])), GROWS],
         raises={"InvalidOperation": dict(mods=LOAD, ensures=[GROWS]), **FAILS}, xprops="")

PSP = ("ref", "ParsedSearchPath")
contract("SandboxShell._parse_search_path", [("self", SHELL), ("path", "str")], ret=("opt", PSP), alloc="any",
         mods={"Z.base", "Z.query", "Z.nav"}, raises={"?": dict(outside=())},
         trusted="takes a word apart (urllib); which query it finds is outside the property, and it changes nothing")

contract("SandboxShell._resolve_search_nav", [("self", SHELL), ("parsed", PSP)], ret="str", own="C07", xprops="C07")


def cmd_setup(x):
    h = pre(x)
    x.eng.assumed.add("the root directory keeps the name it was made with")
    x.pre.assume(h.f("N.name", h.root(h.f("H.vfs", x.t("self")))) == lit(""))


def seen_below(x, start_):
    """Some of the nodes at or below a node, none of them hidden from the shell's view."""
    h, sh = pre(x), x.eng.args["self"].t
    src = tree_src(x, start_, "nodes", vfs=h.f("H.vfs", sh))
    some = z3.Function(str(fresh("some", Ref)), Ref, z3.BoolSort())
    view = h.f("H.view", sh)
    inner, elem = src.member, src.elem
    n = fresh("ix", Ref)
    src = Src("some-nodes", src.ident + (Const(some.name(), z3.BoolSort()),), Ref,
              lambda m: And(inner(m), some(m) if x.res is None else TRUE, shown(h, view, m)), elem)
    return Comp(src, n, [(TRUE, [Item(src.elem(None, n)[0][1])])]), None


def local_seen(eng, f):
    nm = f.node.args.args[0].arg
    return Contract(f.name, [(nm, NODE)], gen=True, alone=True, mods=LOAD, raises=FAILS, ensures=[GROWS],
                    requires=lambda x: [("the node is in the tree", intree(pre(x), pre(x).f("H.vfs", eng.args["self"].t), x.t(nm)))],
                    covers=[("inner return", lambda x: TRUE)],
                    members=("only nodes that are not hidden", "C07", lambda x: seen_below(x, x.t(nm))))


CMD = dict(idle=("ctx",), setup=cmd_setup, inline=("SandboxShell._write_to_path", "SandboxShell._read_from_path"), ret=RES, mods=ANY, alloc="any", raises={"?": dict(mods=ANY, alloc="any", outside=())}, site=view_site, own="C06 C07",
           trace_check=False, xprops="", frame="",
           shallow=["VirtualFileSystem." + n for n in ("write_file", "append_file", "touch", "mkdir", "remove", "move", "copy", "cd")])
for _n in ("cat", "head", "tail", "wc", "cd", "touch", "mkdir", "rm", "cp", "mv", "append", "write", "stat", "ls", "grep", "search", "tree", "find"):
    contract("SandboxShell._cmd_" + _n, [("self", SHELL), ("args", ARGS), ("ctx", ("opt", CTX))], **CMD,
             **(dict(local=local_seen) if _n == "find" else {}))


def all_visible(x):
    """Every path of the list names a visible node (or nothing)."""
    h, v = pre(x), x["paths"]
    view, vfs = h.f("H.view", x.t("self")), h.f("H.vfs", x.t("self"))
    if isinstance(v, LList):
        cs = x.eng.chunks(x.pre, v)
        if not all(isinstance(c, Item) for c in cs):
            return None
        return And([visible(h, view, vfs, c.v) for c in cs])
    src = x.eng.list_src(x.pre.copy(), v)
    i = fresh("ix", z3.IntSort())
    (_, it), = src.elem(x.pre.copy(), i)
    body = visible(h, view, vfs, it, named=False)
    if x.contract is x.eng.verifying:
        x.eng.foralls.append((i, Implies(src.member(i), body)))
    return L.forall_idx(i, src.member(i), body)


def instances(eng, st, t):
    """Instances of the quantified preconditions at the indices of a term (the solver need not find them)."""
    acc = {}
    _fresh_consts(t, -1, acc)
    for i, f in eng.foralls:
        for k in acc.values():
            if k.sort() == i.sort() and str(k).startswith("ix!"):
                st.assume(z3.substitute(f, (i, k)))


BOOLS = [(k, "bool") for k in ("recursive", "regex", "ignore_case", "show_numbers")]
contract("SandboxShell._search", [("self", SHELL), ("pattern", "str"), ("paths", ARGS)] + BOOLS, ret=ARGS, alloc="any", mods=LOAD,
         requires=lambda x: [("every path is visible", all_visible(x), "C07")],
         **{k: v for k, v in CMD.items() if k in ("setup", "site", "own", "trace_check", "xprops", "frame")},
         raises={"?": dict(mods=LOAD, alloc="any", outside=())})
contract("SandboxShell._search_text", [("self", SHELL), ("pattern", "str"), ("text", "str")] + BOOLS[1:], ret=ARGS, alloc="any", own="C06 C07",
         raises={"?": dict(outside=())}, xprops="", frame="")


def tree_site(eng, st, what, *a):
    v = eng.args.get("view", NONE)
    if what == "name" and v is not NONE:
        eng.oblige(st, "only the name of a visible node is read", ("C07",), shown(H(eng, st), v.t, a[0].t))


def local_render(eng, f):
    (nm, *more) = [p.arg for p in f.node.args.args]
    return Contract(f.name, [(nm, DIR)] + [(p, "str") for p in more], mods=LOAD, raises=FAILS, ensures=[GROWS], site=tree_site,
                    requires=lambda x: [("the directory is in the tree", intree(pre(x), eng.args["self"].t, x.t(nm)))],
                    covers=[("inner return", lambda x: TRUE)])


contract("VirtualFileSystem.tree", [("self", VFS), ("path", OPTPATH), ("view", OPTVIEW)], ret="str", mods=LOAD, local=local_render,
         site=tree_site, own="C07",
         ensures=[ens("a readable directory is there", "C06", lambda x: And(
             start(x) != null, L.isdir(start(x)), pre(x).readable(start(x)))), GROWS], raises=NOTHERE)
