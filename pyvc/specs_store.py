"""Contracts: storage adapters and the full-text index."""
from .specs import *
from .specs_fs import *

MEM = ("ref", "MemoryStorageAdapter")
ED, EV = "dict<str,ref<StorageEntry>>.dom", "dict<str,ref<StorageEntry>>.val0"
ENTRIES = {ED, EV, "E.content", "E.version"}


class Mem:
    """The entries a memory adapter holds in a state."""

    def __init__(self, h, me):
        self.h, self.d = h, h.f("M._entries", me)
        self.dom, self.val = h.f(ED, self.d), h.f(EV, self.d)

    def at(self, k):
        return Select(self.val, k)

    def has(self, k):
        return Select(self.dom, k)

    def text(self, k):
        return self.h.f("E.content", self.at(k))

    def ver(self, k):
        return self.h.f("E.version", self.at(k))

    def sep(self):
        a, b = z3.Consts("ka kb", S)
        return ForAll([a, b], Implies(And(self.has(a), self.has(b), a != b), self.at(a) != self.at(b)),
                      patterns=[z3.MultiPattern(self.at(a), self.at(b))])

    def holds(self, r):
        k = Const("k", S)
        return Exists([k], And(self.has(k), self.at(k) == r))


def mem(x, h):
    return Mem(h, x.t("self"))


def kept(x, *but):
    """Every entry but those named is as it was; entries handed out are too."""
    a, b = mem(x, pre(x)), mem(x, post(x))
    k, r = Const("k", S), Const("r", Ref)
    same = And(b.has(k) == a.has(k), Implies(a.has(k), And(b.text(k) == a.text(k), b.ver(k) == a.ver(k))))
    return [
        ("other entries", ForAll([k], Implies(And([k != t for t in but]) if but else TRUE, same), patterns=[b.has(k), b.at(k)])),
        ("entries handed out before", ForAll([r], Implies(And(Select(x.pre.alloc, r), Not(a.holds(r))), And(
            post(x).f("E.content", r) == pre(x).f("E.content", r), post(x).f("E.version", r) == pre(x).f("E.version", r))),
            patterns=[post(x).f("E.content", r), post(x).f("E.version", r)])),
        ("what is stored is not shared", ForAll([k], Implies(b.has(k), Or(a.holds(b.at(k)), Not(Select(x.pre.alloc, b.at(k))))),
                                                patterns=[b.at(k)])),
        ("other stores", ForAll([r], Implies(And(Select(x.pre.alloc, r), r != a.d), And(
            post(x).f(ED, r) == pre(x).f(ED, r), post(x).f(EV, r) == pre(x).f(EV, r))), patterns=[post(x).f(ED, r), post(x).f(EV, r)])),
        ("one object for each entry", And(b.sep(), post(x).f("M._entries", x.t("self")) == a.d)),
    ]


def handed_out(x, k, text, ver):
    b = mem(x, post(x))
    r = x.res.t
    return And(Not(Select(x.pre.alloc, r)), Not(b.holds(r)), post(x).f("E.content", r) == text, post(x).f("E.version", r) == ver)


SEP = lambda x: [("one object for each entry", mem(x, pre(x)).sep())]
NOENTRY = {"FileNotFoundError": dict(ensures=[ens("there is no such entry", "C12", lambda x: Not(mem(x, pre(x)).has(x.t("path"))))])}

contract("MemoryStorageAdapter.read", [("self", MEM), ("path", "str")], ret=ENTRY, requires=SEP,
         mods={"E.content", "E.version"}, alloc=("StorageEntry", "<collection>"), frame="C12", xframe="C12",
         ensures=[ens("a copy of the entry", "C12", lambda x: And(mem(x, pre(x)).has(x.t("path")), handed_out(
             x, x.t("path"), mem(x, pre(x)).text(x.t("path")), mem(x, pre(x)).ver(x.t("path"))))),
             ens("nothing changes", "C12", lambda x: kept(x))], raises=NOENTRY)

contract("MemoryStorageAdapter.write", [("self", MEM), ("path", "str"), ("content", "str"), ("version", "int")], ret=ENTRY,
         requires=SEP, mods=ENTRIES, alloc=("StorageEntry", "<collection>"), frame="C12", xframe="C12",
         covers=[("a new entry", lambda x: Not(mem(x, pre(x)).has(x.t("path")))),
                 ("an existing entry", lambda x: mem(x, pre(x)).has(x.t("path")))],
         ensures=[ens("the version was current", "C12", lambda x: Implies(
             mem(x, pre(x)).has(x.t("path")), mem(x, pre(x)).ver(x.t("path")) == x.t("version"))),
             ens("stored with the version raised by one", "C12", lambda x: And(
                 mem(x, post(x)).has(x.t("path")), mem(x, post(x)).text(x.t("path")) == x.t("content"),
                 mem(x, post(x)).ver(x.t("path")) == x.t("version") + 1)),
             ens("a copy is returned", "C12", lambda x: handed_out(x, x.t("path"), x.t("content"), x.t("version") + 1)),
             ens("the rest", "C12", lambda x: kept(x, x.t("path")))],
         raises=only("ValueError", ens("the version is another one", "C12", lambda x: And(
             mem(x, pre(x)).has(x.t("path")), mem(x, pre(x)).ver(x.t("path")) != x.t("version")))))

contract("MemoryStorageAdapter.delete", [("self", MEM), ("path", "str")], requires=SEP, mods=ENTRIES, frame="C12",
         ensures=[ens("the entry is gone", "C12", lambda x: Not(mem(x, post(x)).has(x.t("path")))),
                  ens("the rest", "C12", lambda x: kept(x, x.t("path")))])


def listed(x):
    a, b = mem(x, pre(x)), post(x)
    d = x.res.t
    k, j = z3.Consts("k j", S)
    D, V = b.f(ED, d), b.f(EV, d)
    e = Select(V, k)
    return [("every entry", And(Not(Select(x.pre.alloc, d)), ForAll([k], Select(D, k) == a.has(k), patterns=[Select(D, k), a.has(k)]),
                                ForAll([k], Implies(a.has(k), And(e != null, b.f("E.content", e) == a.text(k), b.f("E.version", e) == a.ver(k))),
                                       patterns=[e]))),
            ("copies", ForAll([k], Implies(a.has(k), And(Not(Select(x.pre.alloc, e)), Not(mem(x, post(x)).holds(e)))), patterns=[e]))]


contract("MemoryStorageAdapter.list", [("self", MEM)], ret=("dict", "str", ENTRY), requires=SEP, mods=ENTRIES,
         alloc=("StorageEntry", "<collection>"), frame="C12", xframe="C12",
         ensures=[ens("the entries", "C12", listed), ens("nothing changes", "C12", lambda x: kept(x))])

contract("MemoryStorageAdapter.__post_init__", [("self", MEM)], mods=ENTRIES | {"M._entries"},
         alloc=("StorageEntry", "<collection>"), frame="C12",
         ensures=[ens("exactly the initial entries, at version zero", "C12", lambda x: And(
             mem(x, post(x)).sep(), ForAll([Const("k", S)], And(
                 mem(x, post(x)).has(Const("k", S)) == Select(pre(x).f("dict<str,str>.dom", pre(x).f("M.initial", x.t("self"))), Const("k", S)),
                 Implies(mem(x, post(x)).has(Const("k", S)), And(
                     mem(x, post(x)).text(Const("k", S)) == Select(pre(x).f("dict<str,str>.val0", pre(x).f("M.initial", x.t("self"))), Const("k", S)),
                     mem(x, post(x)).ver(Const("k", S)) == 0))), patterns=[mem(x, post(x)).has(Const("k", S))])))])

# ---------------------------------------------------------------- the index
IDX = ("ref", "FullTextIndex")
FD, FV = "dict<path,str>.dom", "dict<path,str>.val0"


def ix_is(x, dom, val=None):
    a, b = pre(x), post(x)
    d = a.f("I._files", x.t("self"))
    r = Const("r", Ref)
    return And(b.f("I._files", x.t("self")) == d, b.f(FD, d) == dom, TRUE if val is None else b.f(FV, d) == val,
               ForAll([r], Implies(And(Select(x.pre.alloc, r), r != d), And(b.f(FD, r) == a.f(FD, r), b.f(FV, r) == a.f(FV, r))),
                      patterns=[b.f(FD, r), b.f(FV, r)]))


def ix(x):
    a = pre(x)
    d = a.f("I._files", x.t("self"))
    return a.f(FD, d), a.f(FV, d)


contract("FullTextIndex.index_file", [("self", IDX), ("path", "path"), ("content", "str")], mods={FD, FV}, frame="C15",
         ensures=[ens("the text of exactly this path is recorded", "C15", lambda x: ix_is(
             x, Store(ix(x)[0], x.t("path"), TRUE), Store(ix(x)[1], x.t("path"), x.t("content"))))])
contract("FullTextIndex.remove_file", [("self", IDX), ("path", "path")], mods={FD, FV}, frame="C15",
         ensures=[ens("exactly this path is forgotten", "C15", lambda x: And(ix_is(x, Store(ix(x)[0], x.t("path"), FALSE)),
                                                                            ForAll([Const("q", L.Path)], Implies(
                                                                                Const("q", L.Path) != x.t("path"),
                                                                                Select(post(x).f(FV, pre(x).f("I._files", x.t("self"))), Const("q", L.Path))
                                                                                == Select(ix(x)[1], Const("q", L.Path))),
                                                                                patterns=[Select(post(x).f(FV, pre(x).f("I._files", x.t("self"))), Const("q", L.Path))])))])
contract("FullTextIndex.clear", [("self", IDX)], mods={FD, FV}, frame="C15",
         ensures=[ens("every path is forgotten", "C15", lambda x: ix_is(x, z3.K(L.Path, FALSE)))])
