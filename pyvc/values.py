"""Types, symbolic values and sequence normal forms."""
import z3
from . import logic as L

# ---- types: 'str' 'int' 'bool' 'real' 'path' 'obj' 'fun' 'none' 'hpath'
#      ('ref', Class) ('opt', T) ('tup', (T,..)) ('list', T) ('dict', K, V) ('set', K) ('union', (T,..))
SORT = {"str": L.S, "int": z3.IntSort(), "bool": z3.BoolSort(), "real": z3.RealSort(), "path": L.Path,
        "obj": L.Obj, "fun": L.Obj, "hpath": L.Obj, "bytes": L.S,
        "pfun": L.Obj, "lfun": L.Obj, "smap_bool": z3.ArraySort(L.S, z3.BoolSort()),
        "smap_str": z3.ArraySort(L.S, L.S), "smap_int": z3.ArraySort(L.S, z3.IntSort()),
        "omap_bool": z3.ArraySort(L.Obj, z3.BoolSort()), "omap_str": z3.ArraySort(L.Obj, L.S),
        "omap_int": z3.ArraySort(L.Obj, z3.IntSort())}
FUNS = ("fun", "pfun", "lfun")


def tname(T):
    if isinstance(T, str):
        return T
    if T[0] in ("tup", "union"):
        return "%s<%s>" % (T[0], ",".join(tname(x) for x in T[1]))
    return "%s<%s>" % (T[0], ",".join(x if T[0] == "ref" else tname(x) for x in T[1:]))


def flat(T):
    """Sorts of the terms that make up a value of type T."""
    if isinstance(T, str):
        if T == "none":
            return []
        return [SORT[T]]
    k = T[0]
    if k in ("ref", "list", "dict", "set"):
        return [L.Ref]
    if k == "opt":
        return (flat(T[1]) if isref(T[1]) else [z3.BoolSort()] + flat(T[1]))
    if k == "tup":
        return [s for x in T[1] for s in flat(x)]
    raise TypeError(T)


def isref(T):
    return not isinstance(T, str) and T[0] in ("ref", "list", "dict", "set")


class Val:
    """A value of a simple type: T and its z3 term."""
    __slots__ = ("T", "t", "lab")

    def __init__(self, T, t, lab=()):
        self.T, self.t, self.lab = T, t, lab

    def __repr__(self):
        return "Val(%s,%s)" % (tname(self.T), self.t)


class NoneVal:
    T = "none"

    def __repr__(self):
        return "None"


NONE = NoneVal()


class Tup:
    T = "tuple"

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class LList:            # a list (or other sequence accumulator) created by the code being executed
    T = "llist"

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "LList(%s)" % self.id


class LDict:            # a dict created by the code being executed, not (yet) in the heap
    T = "ldict"

    def __init__(self, id):
        self.id = id


class LSet:
    T = "lset"

    def __init__(self, items):
        self.items = items


class Inst:             # an object of a class kept outside the z3 heap (records)
    T = "inst"

    def __init__(self, id, cls):
        self.id, self.cls = id, cls

    def __repr__(self):
        return "Inst(%s,%s)" % (self.cls, self.id)


class Kids:             # node.children of directory d
    T = "kids"

    def __init__(self, d):
        self.d = d


class Func:
    T = "func"

    def __init__(self, node, module, fid=None, self_=None, cls=None, name=None):
        self.node, self.module, self.fid, self.self_, self.cls = node, module, fid, self_, cls
        self.name = name or getattr(node, "name", "<lambda>")


class Bound:            # method of a modelled object
    T = "bound"

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "Bound(%r.%s)" % (self.obj, self.name)


class Cl:
    T = "class"

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Cl(%s)" % self.name


class Mod:
    T = "module"

    def __init__(self, name):
        self.name = name


class Bi:
    T = "builtin"

    def __init__(self, name):
        self.name = name


class Gen:              # a suspended generator: run with a handler for each yielded value
    T = "gen"

    def __init__(self, run, label):
        self.run, self.label = run, label


class CtxMgr:
    T = "ctx"

    def __init__(self, gen):
        self.gen = gen


class Ex:
    """An exception object; cls None: some unknown subclass of Exception."""
    T = "exc"

    def __init__(self, cls, msg=None, cause=None, outside=()):
        self.cls, self.msg, self.cause = cls, msg, cause
        self.outside = tuple(outside)       # classes an unknown exception is known not to belong to

    def __repr__(self):
        return "Ex(%s)" % (self.cls or "?")


class Raise:
    def __init__(self, ex):
        self.ex = ex


# ---- sequences ------------------------------------------------------------
class Src:
    """A symbolic finite collection: index sort, membership and element."""

    def __init__(self, kind, ident, sort, member, elem, unique=True):
        self.kind, self.ident, self.sort, self.member, self.elem = kind, ident, sort, member, elem

    def same(self, o):
        """z3 condition under which both denote the same collection, or None."""
        if self.kind != o.kind or len(self.ident) != len(o.ident):
            return None
        cs = []
        for a, b in zip(self.ident, o.ident):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return None
            else:
                if a.sort() != b.sort():
                    return None
                if not a.eq(b):
                    cs.append(a == b)
        return z3.And(cs) if cs else z3.BoolVal(True)


class Item:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Item(%r)" % (self.v,)


class Comp:
    """for idx in src: the first alternative whose condition holds contributes its chunks."""

    def __init__(self, src, idx, alts, rest=None):
        self.src, self.idx, self.alts = src, idx, alts
        # when an element contributes nothing: conditions, one of which then holds ([]: never); None: not recorded
        self.rest = rest

    def __repr__(self):
        return "Comp(%s,%r)" % (self.src.kind, self.alts)


class Part:
    """Contributions of an unknown initial part of a loop that was left early."""

    def __init__(self, comp):
        self.comp = comp


class SLs:
    """A list of strings given by a snoc-list term."""

    def __init__(self, t):
        self.t = t


class SeqV:
    T = "seq"

    def __init__(self, chunks, kind="seq"):
        self.chunks, self.kind = list(chunks), kind

    def __repr__(self):
        return "SeqV(%r)" % (self.chunks,)


class Lines:            # text.splitlines()
    T = "lines"

    def __init__(self, s, keep=False):
        self.s, self.keep = s, keep
