"""Contracts: searching."""
from .specs import *
from .specs_fs import *
from .specs_store import *
from .specs_list import *
from .specs_walk import *
from .engine import Unsupported

QUERY = ("inst", "SearchQuery", {"query": "str", "regex": "bool", "ignore_case": "bool", "path_prefix": ("opt", "path")})
FILES = ("dict", "path", "str")
rx_compile = z3.Function("rx_compile", S, z3.IntSort(), Obj)
rx_search = z3.Function("rx_search", Obj, S, z3.BoolSort())


def fields(x):
    q = x["query"]
    if not isinstance(q, Inst):
        raise Unsupported("a search query of unknown make")
    return x.pre.insts[q.id]


def matches(q, line):
    """The line matches the query (a regular expression, or text to find, with or without regard to case)."""
    text, ic = q["query"].t, q["ignore_case"].t
    return If(q["regex"].t, rx_search(rx_compile(text, If(ic, IntVal(2), IntVal(0))), line),
              If(ic, And(L.lower(text) != lit(""), L.contains(L.lower(line), L.lower(text))), L.contains(line, text)))


def hits(x, q, path, text):
    """One result for every matching line of the text."""
    (_, seq), = x.eng.b_enumerate(x.pre.copy(), [Lines(Val("str", text))], {"start": vint(1)})
    c, = seq.chunks
    (k, (it,)), = c.alts
    no, line = it.v.items
    r = record(x, "SearchResult", {"path": vpath(path), "line_no": no, "line_text": line})
    return Comp(c.src, c.idx, [(And(k, matches(q, line.t)), [Item(r)])])


def in_prefix(p, pre_):
    return TRUE if pre_ is NONE else And(anchor(p) == anchor(pre_.t), prefix(segs(pre_.t), segs(p)))


def query_setup(x):
    q = fields(x)
    x.eng.assumed.add("a query text that ignores case is not empty (an empty one matches nothing)")


def indexed_hits(x):
    h, q = pre(x), fields(x)
    src = x.eng.dict_src(x.pre.copy(), Val(FILES, h.f("I._files", x.t("self"))), "items")
    k = fresh("ix", L.Path)
    (_, kv), = src.elem(x.pre.copy(), k)
    return [Comp(src, k, [(in_prefix(k, q["path_prefix"]), [hits(x, q, k, kv.items[1].t)])])]


contract("FullTextIndex.search", [("self", IDX), ("query", QUERY)], setup=query_setup,
         elems=("one result for every matching line of every indexed file in the prefix", "C15", indexed_hits), raises={"?": {}})


def from_view(x, p):
    """The path lies in the search view."""
    h, v = pre(x), x.t("self")
    sv = h.f("V._search_view_prefix#1", v)
    return And(Not(h.f("V._search_view_prefix", v)), anchor(p) == anchor(sv), prefix(segs(sv), segs(p)))


def found_lines(x):
    h, q, v, e = pre(x), fields(x), x.t("self"), x.eng
    ix = h.f("V._full_text_index", v)
    pp = q["path_prefix"]
    where = Nil if pp is NONE else h.canon(v, pp)
    ok = lambda n: And(n != null, h.readable(n), may_see(x, n))
    # with the index: its files that are still there
    src = e.dict_src(x.pre.copy(), Val(FILES, h.f("I._files", ix)), "items")
    k = fresh("ix", L.Path)
    (_, kv), = src.elem(x.pre.copy(), k)
    a = Comp(src, k, [(And(ix != null, in_prefix(k, NONE if pp is NONE else vpath(P(1, where))), Not(from_view(x, k)),
                           ok(h.at(v, h.canon(v, Val("path", k))))), [hits(x, q, k, kv.items[1].t)])])
    # without: the files at or below the prefix
    start_ = h.at(v, where)
    c, _ = tree_comp(x, start_, "files")
    n = c.idx
    b = Comp(c.src, n, [(And(ix == null, start_ != null, h.readable(start_), Not(from_view(x, P(1, h.path(n)))), ok(n)),
                         [hits(x, q, P(1, h.path(n)), h.text(n))])])
    return [a, b]


contract("VirtualFileSystem.search", [("self", VFS), ("query", QUERY), ("view", OPTVIEW)], mods=LOAD, setup=query_setup,
         elems=("one result for every matching line of every readable file in the prefix that the view allows", "C15 C06 C07", found_lines),
         ensures=[GROWS], raises={"ProviderError": dict(mods=LOAD), **FAILS})
