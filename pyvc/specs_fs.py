"""Contracts: policies and versions, writing, events, storage and index."""
from .specs import *
from .contract import NEWNODES, Contract, Clause, X, key_sort

MOUNTS = ("dict", "path", ("ref", "StorageAdapter"))
SB = ("NodeNotFound", "NodeExists", "InvalidOperation", "ProviderError")


# ---------------------------------------------------------------- permission and version checks
contract("VirtualFileSystem._ensure_read_allowed", [("self", VFS), ("node", NODE)],
         ensures=[ens("the node is readable", "C06", lambda x: pre(x).readable(x.t("node")))],
         raises=only("InvalidOperation", ens("the node is not readable", "C06 C04", lambda x: Not(pre(x).readable(x.t("node"))))))


def may_write(h, n, append):
    return And(h.writable(n), Or(append, Not(h.append_only(n))))


contract("VirtualFileSystem._ensure_write_allowed", [("self", VFS), ("node", NODE), ("append", "bool")],
         ensures=[ens("the policy allows the change", "C05", lambda x: may_write(pre(x), x.t("node"), x.t("append")))],
         raises=only("InvalidOperation", ens("the policy forbids the change", "C05",
                                             lambda x: Not(may_write(pre(x), x.t("node"), x.t("append"))))))


def expected_ok(v, cur):
    return TRUE if v is NONE else v.t == cur


contract("VirtualFileSystem._check_version", [("self", VFS), ("node", NODE), ("expected_version", ("opt", "int"))],
         ensures=[ens("the version is the expected one", "C09", lambda x: expected_ok(
             x["expected_version"], pre(x).f("N.version", x.t("node"))))],
         raises=only("InvalidOperation", ens("the version is another one", "C09", lambda x: Not(expected_ok(
             x["expected_version"], pre(x).f("N.version", x.t("node")))))))


def matches(p, q):
    """Path p lies in prefix q, by whole components."""
    return Or(q == P(1, Nil), And(anchor(p) == anchor(q), prefix(segs(q), segs(p))))


contract("VirtualFileSystem._path_matches_prefix", [("self", VFS), ("path", "path"), ("prefix", "path")], ret="bool",
         value=("by whole components", "C10 C11", lambda x: matches(x.t("path"), x.t("prefix"))))


def missing_prefix(x):
    a = pre(x)
    c = a.canon(x.t("self"), x["path"])
    there = a.at(x.t("self"), c) != null
    if x.res is NONE:
        return there
    m = segs(x.res.t)
    up = a.at(x.t("self"), L.init(m))
    return And(Not(there), anchor(x.res.t) == 1, prefix(m, c), L.is_Snoc(m), a.at(x.t("self"), m) == null, up != null,
               a.writable(up))


contract("VirtualFileSystem._check_create_allowed", [("self", VFS), ("path", PATHARG)], ret=("opt", "path"), mods=LOAD,
         ensures=[ens("the topmost missing entry, below a writable directory", "C05", missing_prefix), GROWS],
         raises={"InvalidOperation": dict(mods=LOAD, ensures=[GROWS]), **FAILS})


# ---------------------------------------------------------------- storage
ADAPTER = ("ref", "StorageAdapter")
ENTRY = ("ref", "StorageEntry")
STORE = {"A.@dom", "A.@text", "A.@ver"}
PROTO = ("adapters behave as documented: a write of an entry whose version differs fails with ValueError, any failure "
         "leaves the store as it was, and a successful write stores exactly text and version (proved for "
         "MemoryStorageAdapter under C12)")


def store_is(x, key, v):
    return And(post(x).f(key, x.t("self")) == v, others_keep(x, key))


contract("StorageAdapter.write", [("self", ADAPTER), ("path", "str"), ("content", "str"), ("version", "int")], ret=ENTRY,
         mods=STORE | {"E.content", "E.version"}, alloc=("StorageEntry",), trusted=PROTO,
         ensures=[ens("stored", "C11", lambda x: And(
             Implies(Select(pre(x).f("A.@dom", x.t("self")), x.t("path")),
                     Select(pre(x).f("A.@ver", x.t("self")), x.t("path")) == x.t("version")),
             store_is(x, "A.@dom", Store(pre(x).f("A.@dom", x.t("self")), x.t("path"), TRUE)),
             store_is(x, "A.@text", Store(pre(x).f("A.@text", x.t("self")), x.t("path"), x.t("content"))),
             store_is(x, "A.@ver", Store(pre(x).f("A.@ver", x.t("self")), x.t("path"), x.t("version") + 1)))),
             ens("a new entry is returned", "C11", lambda x: And(Not(Select(x.pre.alloc, x.res.t)),
                                                                others_keep(x, "E.content", "E.version", who=x.res.t)))],
         raises={"ValueError": {}, "?": {}})

contract("StorageAdapter.delete", [("self", ADAPTER), ("path", "str")], mods=STORE, trusted=PROTO,
         ensures=[ens("gone", "C11", lambda x: And(
             store_is(x, "A.@dom", Store(pre(x).f("A.@dom", x.t("self")), x.t("path"), FALSE)),
             ForAll([Const("r", Ref), Const("k", S)], Implies(
                 And(Select(x.pre.alloc, Const("r", Ref)), Not(And(Const("r", Ref) == x.t("self"), Const("k", S) == x.t("path")))),
                 And([Select(post(x).f(f, Const("r", Ref)), Const("k", S)) == Select(pre(x).f(f, Const("r", Ref)), Const("k", S))
                      for f in ("A.@text", "A.@ver")])), patterns=[Select(post(x).f("A.@text", Const("r", Ref)), Const("k", S)),
                                                                    Select(post(x).f("A.@ver", Const("r", Ref)), Const("k", S))])))],
         raises={"?": {}})


def mount_of(h, vfs):
    m = h.f("V._storage_mounts", vfs)
    return h.f("dict<path,ref<StorageAdapter>>.dom", m), h.f("dict<path,ref<StorageAdapter>>.val0", m)


def innermost(h, vfs, p, q):
    """q is the innermost mount containing p."""
    dom, _ = mount_of(h, vfs)
    r = Const("r", L.Path)
    return And(Select(dom, q), matches(p, q), ForAll([r], Implies(And(Select(dom, r), matches(p, r)),
                                                                  L.slen(segs(r)) <= L.slen(segs(q))), patterns=[Select(dom, r)]))


def unmounted(h, vfs, p):
    dom, _ = mount_of(h, vfs)
    r = Const("r", L.Path)
    return ForAll([r], Implies(Select(dom, r), Not(matches(p, r))), patterns=[Select(dom, r)])


def mount_found(x):
    h = pre(x)
    if x.res is NONE:
        return unmounted(h, x.t("self"), x.t("path"))
    q, a = x.res.items
    return And(innermost(h, x.t("self"), x.t("path"), q.t), a.t == Select(mount_of(h, x.t("self"))[1], q.t), a.t != null)


contract("VirtualFileSystem._find_storage_mount", [("self", VFS), ("path", "path")],
         ret=("opt", ("tup", ("path", ADAPTER))), requires=lambda x: [("the path is absolute", anchor(x.t("path")) == 1)],
         ensures=[ens("the innermost mount containing the path", "C11", mount_found)])


# ---------------------------------------------------------------- events
HOOKS = ("list", ("tup", ("path", "fun")))


def hook_calls(x, field, cls, fields, p, when=None):
    """One call of every hook registered for a prefix containing p, in registration order."""
    e, st = x.eng, x.pre
    lst = Val(HOOKS, Select(e.harr(st, "V." + field, Ref), x.t("self")))
    c = e.src_comp(st, e.list_src(st, lst))
    i = e.nid()
    x.post.insts[i] = fields
    st.insts[i] = fields
    alts = []
    for k, ch in c.alts:
        pre_, fun = ch[0].v.items
        alts.append((And(k, matches(p, pre_.t)), [Item(Tup([fun, Inst(i, cls)]))]))
    return Comp(c.src, c.idx, alts)


def path_event(x, p, ev, content):
    """ev: term of the event name."""
    return hook_calls(x, "_path_hooks", "PathEvent", {"path": Val("str", L.pstr(p)), "event": Val("str", ev), "content": content}, p)


def app(x):
    """The append flag (append_file always appends)."""
    return x.args.get("append", Val("bool", TRUE))


def write_trace(x):
    h = post(x)
    n = x.res.t
    ver = h.f("N.version", n)
    return write_calls(x, P(1, pre(x).canon(x.t("self"), x["path"])), h.f("N._content", n), ver, app(x),
                       If(ver == 1, lit("create"), lit("update")))


def write_calls(x, p, text, ver, append, ev):
    return [hook_calls(x, "_write_hooks", "WriteEvent", {"path": Val("str", L.pstr(p)), "content": Val("str", text),
                                                         "version": Val("int", ver), "append": append}, p),
            path_event(x, p, ev, Val("str", text))]


# ---------------------------------------------------------------- writing
def relkey(p, q):
    return L.pstr(P(0, L.drop(p, segs(q))))


def old_keep(x, *keys):
    r = Const("r", Ref)
    return And([ForAll([r], Implies(Select(x.pre.alloc, r), post(x).f(k, r) == pre(x).f(k, r)), patterns=[post(x).f(k, r)])
                for k in keys])


def index_only(x, path):
    """No index entry but that of this path changes."""
    a, b = pre(x), post(x)
    ix = a.f("V._full_text_index", x.t("self"))
    d = a.f("I._files", ix)
    r, q = Const("r", Ref), Const("q", L.Path)
    D, V = "dict<path,str>.dom", "dict<path,str>.val0"
    return And([ForAll([r, q], Implies(And(Select(x.pre.alloc, r), Or(ix == null, r != d, q != path)),
                                       Select(b.f(k, r), q) == Select(a.f(k, r), q)), patterns=[Select(b.f(k, r), q)])
                for k in (D, V)])


def stored_as(x, p, change, keep=()):
    """The adapter of the innermost mount containing canonical path p changed as given, nothing else did.
    change(adapter arrays, key) -> arrays"""
    a, b = pre(x), post(x)
    vfs = x.t("self")
    q, r, k = Const("q", L.Path), Const("r", Ref), Const("k", S)
    pp = P(1, p)
    dom, val = mount_of(a, vfs)
    ad = Select(val, q)
    fs = ("A.@dom", "A.@text", "A.@ver")
    same = lambda f: Select(b.f(f, r), k) == Select(a.f(f, r), k)
    alloc = Select(x.pre.alloc, r)
    if keep:
        return stored_as(x, p, change) + [("texts and versions of other entries", ForAll([r, k], Implies(
            alloc, Or(And([same(f) for f in keep]), Not(Select(b.f("A.@dom", r), k)))), patterns=[Select(b.f(f, r), k) for f in keep]))]
    return [
        ("the innermost mount's adapter", ForAll([q], Implies(innermost(a, vfs, pp, q), change(
            [Select(b.f(f, ad), relkey(p, q)) for f in fs])), patterns=[Select(dom, q)])),
        ("no other entry", ForAll([q, r, k], Implies(And(innermost(a, vfs, pp, q), alloc, Or(r != ad, k != relkey(p, q))),
                                                     And([same(f) for f in fs])),
                                  patterns=[z3.MultiPattern(Select(dom, q), Select(b.f(f, r), k)) for f in fs])),
        ("nothing outside mounts", Implies(unmounted(a, vfs, pp), ForAll([r, k], Implies(alloc, And([same(f) for f in fs])),
                                                                        patterns=[Select(b.f(f, r), k) for f in fs]))),
    ]


def indexed(x, path, text=None):
    """The full-text index, when there is one, changed by exactly this path."""
    a, b = pre(x), post(x)
    off = a.f("V._full_text_index", x.t("self")) == null
    ix = a.f("V._full_text_index", x.t("self"))
    d = a.f("I._files", ix)
    r = Const("r", Ref)
    D, V = "dict<path,str>.dom", "dict<path,str>.val0"
    nd = Store(a.f(D, d), path, TRUE if text is not None else FALSE)
    cs = [b.f(D, d) == nd]
    if text is not None:
        cs.append(b.f(V, d) == Store(a.f(V, d), path, text))
    return [("entry", Implies(Not(off), And(cs))),
            ("others", And([ForAll([r], Implies(And(Select(x.pre.alloc, r), Or(off, r != d)), b.f(k, r) == a.f(k, r)),
                                   patterns=[b.f(k, r)]) for k in (D, V)]))]


def target0(x, arg="path"):
    return pre(x).at(x.t("self"), pre(x).canon(x.t("self"), x[arg]))


def entries_added_in_writable(x):
    """A directory that gained or lost an entry was writable."""
    d, s = Const("d", Ref), Const("s", S)
    k0, k1 = Select(Select(pre(x).K, d), s), Select(Select(post(x).K, d), s)
    return ForAll([d, s], Implies(And(Select(x.pre.alloc, d), L.isdir(d), k1 != k0), pre(x).writable(d)), patterns=[k1])


def initial_but(x, who):
    a = Const("n", Ref)
    h, A = post(x), x.pre.alloc
    return ForAll([a], Implies(And(Select(x.post.alloc, a), Not(Select(A, a)), L.isnode(a), a != who), initial(h, A, a)),
                  patterns=[Select(x.post.alloc, a)])


def old_text(x):
    t = target0(x)
    return If(t == null, lit(""), pre(x).text(t))


INDEX = {"dict<path,str>.dom", "dict<path,str>.val0"}
WRITE = MAKE | STORE | INDEX | {"N._content", "N._provider", "N.version", "N.modified_at", "E.content", "E.version"}

# ---------------------------------------------------------------- the steps of a write
def node_path(x, n="node"):
    return pre(x).path(x.t(n))


def same_store(x):
    r = Const("r", Ref)
    return And([ForAll([r], Implies(Select(x.pre.alloc, r), post(x).f(k, r) == pre(x).f(k, r)), patterns=[post(x).f(k, r)])
                for k in sorted(STORE)])


NODEFILE = [("self", VFS), ("node", FILE)]
ROOTED = lambda x: [("the node has a parent or is the root", L.allclean(node_path(x)))]

contract("VirtualFileSystem._persist_storage", NODEFILE + [("previous_version", "int")],
         mods=STORE | {"E.content", "E.version"}, alloc=("StorageEntry",), frame="C11", xframe="C04",
         ensures=[ens("storage", "C11", lambda x: stored_as(x, node_path(x), lambda f: And(
             f[0], f[1] == pre(x).text(x.t("node")), f[2] == x.t("previous_version") + 1))),
             ens("entries handed out before stay", "C12", lambda x: old_keep(x, "E.content", "E.version"))],
         raises={"InvalidOperation": dict(mods={"N.version"}, ensures=[
                     ens("only this version may have been put back", "C04", lambda x: others_keep(x, "N.version", who=x.t("node")))]),
                 "ProviderError": dict(ensures=[ens("it has a provider", "C04", lambda x: Not(pre(x).f("N._provider", x.t("node"))))]),
                 "?": dict(mods={"N.version"}, outside=("SandboxError",), ensures=[
                     ens("only this version may have been put back", "C04", lambda x: others_keep(x, "N.version", who=x.t("node")))])})

def only_that_entry(x):
    a, b, p, v = pre(x), post(x), node_path(x), x.t("self")
    q, r, k = Const("q", L.Path), Const("r", Ref), Const("k", S)
    dom, val = mount_of(a, v)
    d1, d0 = Select(b.f("A.@dom", r), k), Select(a.f("A.@dom", r), k)
    why = z3.Exists([q], And(innermost(a, v, P(1, p), q), r == Select(val, q), k == relkey(p, q)), patterns=[Select(dom, q)])
    return [("no entry is added", ForAll([r, k], Implies(And(Select(x.pre.alloc, r), d1), d0), patterns=[d1])),
            ("only this entry", ForAll([r, k], Implies(And(Select(x.pre.alloc, r), d0, Not(d1)), why), patterns=[d1]))]


contract("VirtualFileSystem._delete_storage_entry", NODEFILE, mods=STORE, frame="C11",
         ensures=[ens("at most this entry goes", "C11", only_that_entry), ens("storage", "C11", lambda x: stored_as(x, node_path(x), lambda f: Not(f[0]), keep=("A.@text", "A.@ver")))],
         raises={"?": dict(mods=set())})

contract("VirtualFileSystem._index_file", NODEFILE, mods=INDEX, frame="C15",
         ensures=[ens("index", "C15", lambda x: Implies(pre(x).f("N._provider", x.t("node")), And([f for _, f in indexed(
             x, P(1, node_path(x)), pre(x).text(x.t("node")))]))),
             ens("only this entry of the index", "C15", lambda x: index_only(x, P(1, node_path(x))))])

contract("VirtualFileSystem._remove_index_entry", [("self", VFS), ("path", "path")], mods=INDEX, frame="C15",
         ensures=[ens("index", "C15", lambda x: indexed(x, x.t("path"))),
                  ens("only this entry of the index", "C15", lambda x: index_only(x, x.t("path")))])

contract("VirtualFileSystem._emit_path_event", [("self", VFS), ("path", "path"), ("event_type", "str"), ("content", ("opt", "str"))],
         trace=lambda x: [path_event(x, x.t("path"), x.t("event_type"), x["content"])], raises={"?": {}})

contract("VirtualFileSystem._emit_write_event", NODEFILE + [("append", "bool"), ("event_type", "str")],
         trace=lambda x: write_calls(x, P(1, node_path(x)), pre(x).text(x.t("node")), pre(x).f("N.version", x.t("node")),
                                     x["append"], x.t("event_type")),
         raises={"ProviderError": dict(ensures=[ens("it has a provider", "C10", lambda x: Not(pre(x).f("N._provider", x.t("node"))))]),
                 "?": {}})


def keeps(*keys):
    return lambda x: others_keep(x, *keys, who=x.res.t)


def only_path_entries(x):
    return created(x)[:4]


def _writing(name, params, **kw):
    contract("VirtualFileSystem." + name, params,
         ret=FILE, mods=WRITE, alloc=NEWNODES + ("StorageEntry",), frame="C03", xframe="C04", lemmas=path_terms,
         trace=write_trace,
         covers=[("a new file", lambda x: target0(x) == null), ("an existing file", lambda x: target0(x) != null),
                 ("an append", lambda x: app(x).t)], **kw,
         ensures=[
             ens("the file at the canonical path", "C01 C03", lambda x: made(x, L.isfile)),
             ens("it reads as the old text (on append) followed by the data", "C03", lambda x: And(
                 post(x).f("N._content", x.res.t) == If(app(x).t, L.scat(old_text(x), x.t("data")), x.t("data")),
                 post(x).f("N._provider", x.res.t))),
             ens("no other file changes", "C03", keeps("N._content", "N._provider", "N._provider#1", "N.modified_at")),
             ens("only missing entries of the path appear", "C03", only_path_entries),
             ens("created directories are in their initial state", "C03 C05", lambda x: initial_but(x, x.res.t)),
             ens("the policy allowed it", "C05", lambda x: And(
                 Implies(target0(x) != null, may_write(pre(x), target0(x), app(x).t)), entries_added_in_writable(x))),
             ens("the version counts it", "C09", lambda x: And(
                 post(x).f("N.version", x.res.t) == If(target0(x) == null, 0, pre(x).f("N.version", target0(x))) + 1,
                 expected_ok(x["expected_version"], If(target0(x) == null, 0, pre(x).f("N.version", target0(x)))))),
             ens("no other version changes", "C09", keeps("N.version")),
             ens("storage", "C11", lambda x: stored_as(x, pre(x).canon(x.t("self"), x["path"]), lambda f: And(
                 f[0], f[1] == post(x).f("N._content", x.res.t), f[2] == post(x).f("N.version", x.res.t)))),
             ens("index", "C15", lambda x: indexed(x, P(1, pre(x).canon(x.t("self"), x["path"])), post(x).f("N._content", x.res.t))),
             GROWS],
         raises={"InvalidOperation": dict(mods=LOAD, trace=False, ensures=[GROWS]),
                 "ProviderError": dict(mods=LOAD, trace=False, ensures=[GROWS]),
                 "?": dict(mods=WRITE, alloc=NEWNODES + ("StorageEntry",))})


_writing("write_file", [("self", VFS), ("path", PATHARG), ("data", "str"), ("append", "bool"), ("expected_version", ("opt", "int"))])
_writing("append_file", [("self", VFS), ("path", PATHARG), ("data", "str"), ("expected_version", ("opt", "int"))])
