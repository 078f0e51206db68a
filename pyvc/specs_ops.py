"""Contracts: the other operations of the filesystem."""
from .specs import *
from .specs_fs import *
from .specs_fs import _writing

SELFP = [("self", VFS), ("path", PATHARG)]
ANYP = [("self", VFS), ("path", ["str", "path", "none"])]
NOTFOUND = lambda *props: {c: dict(mods=LOAD, ensures=[GROWS]) for c in ("NodeNotFound", "InvalidOperation")}


def at_path(x, arg="path"):
    return target0(x, arg)


# ---------------------------------------------------------------- looking
contract("VirtualFileSystem.pwd", [("self", VFS)], ret="str",
         value=("the canonical path of the working directory", "C01", lambda x: L.pstr(P(1, pre(x).path(pre(x).f("V.cwd", x.t("self")))))))

contract("VirtualFileSystem.get_node", SELFP, ret=NODE, mods=LOAD,
         ensures=[ens("the node at the canonical path", "C01", found), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[ens("nothing is there", "C01", not_found), GROWS]),
                 "InvalidOperation": dict(mods=LOAD, ensures=[ens("nothing is there", "C01", not_found), GROWS]), **FAILS})

for _n, _k in (("is_dir", L.isdir), ("is_file", L.isfile)):
    contract("VirtualFileSystem." + _n, SELFP, ret="bool", mods=LOAD,
             value=("whether such a node is there", "C01", lambda x, k=_k: And(at_path(x) != null, k(at_path(x)))),
             ensures=[GROWS], raises=FAILS)

contract("VirtualFileSystem.get_version", SELFP, ret="int", mods=LOAD,
         ensures=[ens("the version of the file there", "C01 C09", lambda x: And(
             at_path(x) != null, L.isfile(at_path(x)), x.res.t == pre(x).f("N.version", at_path(x)))), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[ens("nothing is there", "C01", not_found), GROWS]),
                 "InvalidOperation": dict(mods=LOAD, ensures=[ens("no file is there", "C01", lambda x: not_found(x, L.isfile)), GROWS]), **FAILS})

contract("VirtualFileSystem.get_policy", SELFP, ret=POL, mods=LOAD,
         ensures=[ens("the policy of the node there", "C01", lambda x: And(
             at_path(x) != null, x.res.t == pre(x).f("N.policy", at_path(x)))), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[ens("nothing is there", "C01", not_found), GROWS]),
                 "InvalidOperation": dict(mods=LOAD, ensures=[ens("nothing is there", "C01", not_found), GROWS]), **FAILS})

contract("VirtualFileSystem.set_policy", SELFP + [("policy", POL)], mods=LOAD | {"N.policy"}, frame="C09 C01",
         ensures=[ens("the node there has the policy, no other changes", "C01", lambda x: And(
             at_path(x) != null, post(x).f("N.policy", at_path(x)) == x.t("policy"),
             others_keep(x, "N.policy", who=at_path(x)))), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[GROWS]), "InvalidOperation": dict(mods=LOAD, ensures=[GROWS]), **FAILS},
         props=("C09",))

contract("VirtualFileSystem.read_file", SELFP, ret="str", mods=LOAD, frame="C03 C09", props=("C09",),
         ensures=[ens("the text of the file there", "C01 C03", lambda x: And(
             at_path(x) != null, L.isfile(at_path(x)), x.res.t == pre(x).text(at_path(x)))),
             ens("the file is readable", "C06", lambda x: pre(x).readable(at_path(x))), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[ens("no file is there", "C01 C03", lambda x: not_found(x, L.isfile)), GROWS]),
                 "InvalidOperation": dict(mods=LOAD, ensures=[ens("no readable file is there", "C01 C03", lambda x: Or(
                     not_found(x, L.isfile), Not(pre(x).readable(at_path(x))))), GROWS]),
                 "ProviderError": dict(mods=LOAD, ensures=[ens("it has a provider", "C03", lambda x: And(
                     at_path(x) != null, L.isfile(at_path(x)), Not(pre(x).f("N._provider", at_path(x))))), GROWS]), **FAILS})

contract("VirtualFileSystem.cd", SELFP, ret="str", mods=LOAD | {"V.cwd"}, frame="C01", xframe="C01",
         ensures=[ens("the working directory is the readable directory there", "C01 C06", lambda x: And(
             at_path(x) != null, L.isdir(at_path(x)), post(x).f("V.cwd", x.t("self")) == at_path(x),
             pre(x).readable(at_path(x)), others_keep(x, "V.cwd"))),
             ens("its canonical path is returned", "C01", lambda x: x.res.t == L.pstr(P(1, pre(x).path(at_path(x))))), GROWS],
         raises={"NodeNotFound": dict(mods=LOAD, ensures=[ens("nothing is there", "C01", not_found), GROWS]),
                 "InvalidOperation": dict(mods=LOAD, ensures=[ens("no readable directory is there", "C01", lambda x: Or(
                     not_found(x, L.isdir), Not(pre(x).readable(at_path(x))))), GROWS]), **FAILS})

# ---------------------------------------------------------------- hooks
for _n, _fld in (("register_write_hook", "_write_hooks"), ("register_path_hook", "_path_hooks")):
    def _appended(x, fld=_fld):
        a, b = pre(x), post(x)
        lst = a.f("V." + fld, x.t("self"))
        n = tname(HOOKS)
        i, r = Const("i", z3.IntSort()), Const("r", Ref)
        ln = a.f(n + ".len", lst)
        return And(b.f(n + ".len", lst) == ln + 1,
                   Select(b.f(n + ".el0", lst), ln) == P(1, a.canon(x.t("self"), x["prefix"])),
                   Select(b.f(n + ".el1", lst), ln) == x.t("hook"),
                   And([ForAll([i], Implies(And(0 <= i, i < ln), Select(b.f(n + e, lst), i) == Select(a.f(n + e, lst), i)),
                               patterns=[Select(b.f(n + e, lst), i)]) for e in (".el0", ".el1")]),
                   And([ForAll([r], Implies(And(Select(x.pre.alloc, r), r != lst), b.f(n + e, r) == a.f(n + e, r)),
                               patterns=[b.f(n + e, r)]) for e in (".len", ".el0", ".el1")]))
    contract("VirtualFileSystem." + _n, [("self", VFS), ("prefix", PATHARG), ("hook", "fun")],
             mods={tname(HOOKS) + e for e in (".len", ".el0", ".el1")},
             ensures=[ens("the hook is added last, for the canonical prefix", "C10", _appended)])


# ---------------------------------------------------------------- touch and mkdir
contract("VirtualFileSystem.touch", SELFP, ret=FILE, mods=MAKE | {"N.modified_at"}, alloc=NEWNODES, frame="C03 C09",
         xframe="C04", lemmas=path_terms, props=("C09",),
         covers=[("a new file", lambda x: target0(x) == null), ("an existing file", lambda x: target0(x) != null)],
         ensures=[
             ens("the file at the canonical path", "C01 C03", lambda x: made(x, L.isfile)),
             ens("only its time changes", "C03", keeps("N.modified_at")),
             ens("only missing entries of the path appear", "C03", only_path_entries),
             ens("created nodes are in their initial state", "C03 C05 C09", lambda x: initial_but(x, null)),
             ens("the policy allowed it", "C05", lambda x: And(
                 Implies(target0(x) != null, may_write(pre(x), target0(x), TRUE)), entries_added_in_writable(x))), GROWS],
         raises={"InvalidOperation": dict(mods=LOAD, ensures=[GROWS]), "NodeNotFound": dict(mods=LOAD, ensures=[GROWS]),
                 "ProviderError": dict(mods=LOAD, ensures=[GROWS]),
                 "?": dict(mods=MAKE, alloc=NEWNODES)})

contract("VirtualFileSystem.mkdir", [("self", VFS), ("path", PATHARG), ("parents", "bool"), ("exist_ok", "bool")],
         ret=DIR, mods=MAKE, alloc=NEWNODES, frame="C03 C09", xframe="C04", lemmas=path_terms,
         covers=[("a new directory", lambda x: target0(x) == null), ("an existing one", lambda x: target0(x) != null)],
         ensures=[
             ens("the directory at the canonical path", "C01 C03", lambda x: made(x, L.isdir)),
             ens("an existing one only if asked", "C03", lambda x: Or(target0(x) == null, x.t("exist_ok"),
                                                                     target0(x) == pre(x).root(x.t("self")))),
             ens("missing parents only if asked", "C03", lambda x: Or(
                 x.t("parents"), pre(x).at(x.t("self"), L.init(pre(x).canon(x.t("self"), x["path"]))) != null,
                 target0(x) == pre(x).root(x.t("self")))),
             ens("only missing entries of the path appear", "C03", only_path_entries),
             ens("created nodes are in their initial state", "C03 C05", lambda x: initial_but(x, null)),
             ens("the directories that gained an entry allowed it", "C05", entries_added_in_writable), GROWS],
         raises={"InvalidOperation": dict(mods=LOAD, ensures=[GROWS]), "NodeNotFound": dict(mods=LOAD, ensures=[GROWS]),
                 "NodeExists": dict(mods=LOAD, ensures=[
                     ens("a directory is there and may not be", "C03", lambda x: And(target0(x) != null, L.isdir(target0(x)), Not(x.t("exist_ok")))), GROWS]),
                 "ProviderError": dict(mods=LOAD, ensures=[GROWS]), "?": dict(mods=MAKE, alloc=NEWNODES)})
