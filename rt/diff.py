"""Histories on the real filesystem, checked call by call against the contracts of model.py.

Every operation of a history is a JSON list, so that a failing history can be written out and
replayed.  A mismatch is a (set of property ids, message).
"""
import json
import os
import random
import signal
import sys
import time
from pathlib import PurePosixPath

from . import model as M

REPO = os.environ.get("SANDFS_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import sandfs  # noqa: E402
from sandfs.adapters import MemoryStorageAdapter  # noqa: E402
from sandfs.exceptions import ProviderError, SandboxError  # noqa: E402
from sandfs.nodes import VirtualDirectory, VirtualFile  # noqa: E402
from sandfs.policies import NodePolicy, VisibilityView  # noqa: E402
from sandfs.providers import ProvidedNode  # noqa: E402
from sandfs.search import SearchQuery  # noqa: E402
from sandfs.vfs import VirtualFileSystem  # noqa: E402

FAIL = "\x00fail"


def arg_path(p):
    return PurePosixPath(p["P"]) if isinstance(p, dict) else p


def mk_policy(spec):
    return NodePolicy(spec[0], spec[1], spec[2], spec[3], set(spec[4]))


def mk_mpolicy(spec):
    return M.MPolicy(spec[0], spec[1], spec[2], spec[3], spec[4])


def mk_view(spec):
    if spec is None:
        return None
    return VisibilityView(classifications=spec.get("c"), principals=spec.get("p"),
                          path_prefixes=spec.get("x"), metadata_filters=spec.get("m"))


def mk_mview(spec):
    if spec is None:
        return None
    return {"classifications": spec.get("c"), "principals": spec.get("p"),
            "path_prefixes": None if spec.get("x") is None else
            [M.normalize((), q) for q in spec["x"]],
            "metadata_filters": spec.get("m")}


def provider_text(spec, path, meta):
    if spec == "fail":
        raise RuntimeError("provider down")
    if spec == "ctx":
        return "path=%s meta=%s\n" % (path, sorted((str(k), str(v)) for k, v in meta.items()))
    return spec[1]


class Real:
    def __init__(self):
        self.vfs = VirtualFileSystem()
        self.log = []
        self.stores = {}
        self.snaps = {}
        self.quiet = False
        self.calls = []

    def provider(self, spec):
        def provide(ctx):
            if not self.quiet:
                self.calls.append((str(ctx.path), ctx.vfs is self.vfs))
            return provider_text(spec, str(ctx.path), ctx.metadata)
        return provide

    def loader(self, spec):
        def load(ctx):
            if not self.quiet:
                self.calls.append(("L" + str(ctx.path), ctx.vfs is self.vfs))
            return {k: self.provided(v) for k, v in spec.items()}
        return load

    def provided(self, s):
        kw = {}
        if s.get("policy"):
            kw["policy"] = mk_policy(s["policy"])
        if s.get("meta"):
            kw["metadata"] = s["meta"]
        if s["kind"] == "file":
            if "provider" in s:
                return ProvidedNode.file(content_provider=self.provider(s["provider"]), **kw)
            return ProvidedNode.file(content=s.get("text"), **kw)
        if "loader" in s:
            return ProvidedNode.directory(directory_provider=self.loader(s["loader"]), **kw)
        return ProvidedNode.directory(
            children={k: self.provided(v) for k, v in s.get("children", {}).items()}, **kw)

    def run(self, op):
        v, name, a = self.vfs, op[0], op[1:]
        if name in ("write_file", "append_file"):
            kw = dict(a[2]) if len(a) > 2 else {}
            n = getattr(v, name)(arg_path(a[0]), a[1], **kw)
            return ("node", str(n.path()))
        if name in ("touch", "read_file", "cd", "exists", "is_dir", "is_file", "get_version"):
            r = getattr(v, name)(arg_path(a[0]))
            return ("node", str(r.path())) if name == "touch" else r
        if name == "mkdir":
            return ("node", str(v.mkdir(arg_path(a[0]), parents=a[1], exist_ok=a[2]).path()))
        if name == "remove":
            return v.remove(arg_path(a[0]), recursive=a[1])
        if name == "move":
            return v.move(arg_path(a[0]), arg_path(a[1]))
        if name == "copy":
            return v.copy(arg_path(a[0]), arg_path(a[1]), recursive=a[2])
        if name == "pwd":
            return v.pwd()
        if name == "ls":
            return [(e.name, str(e.path), e.is_dir, dict(e.metadata), pkey(e.policy))
                    for e in v.ls(None if a[0] is None else arg_path(a[0]), view=mk_view(a[1]))]
        if name == "tree":
            return v.tree(None if a[0] is None else arg_path(a[0]), view=mk_view(a[1]))
        if name == "walk":
            return [str(p) for p, _ in v.walk(None if a[0] is None else arg_path(a[0]))]
        if name == "iter_files":
            return [str(p) for p, _ in v.iter_files(None if a[0] is None else arg_path(a[0]),
                                                    recursive=a[1])]
        if name == "get_policy":
            return pkey(v.get_policy(arg_path(a[0])))
        if name == "set_policy":
            return v.set_policy(arg_path(a[0]), mk_policy(a[1]))
        if name == "node_policy":
            n = v.get_node(arg_path(a[0]))
            if a[1] == "principals":
                n.policy.principals.add(a[2])
            else:
                setattr(n.policy, a[1], a[2])
            return None
        if name == "node_meta":
            v.get_node(arg_path(a[0])).metadata[a[1]] = a[2]
            return None
        if name == "get_node":
            return str(v.get_node(arg_path(a[0])).path())
        if name == "search":
            return [(str(r.path), r.line_no, r.line_text)
                    for r in v.search(mk_query(a[0]), view=mk_view(a[1]))]
        if name == "snapshot":
            self.snaps[a[0]] = v.snapshot()
            return None
        if name == "restore":
            return v.restore(self.snaps[a[0]])
        if name == "mount_file":
            n = v.mount_file(arg_path(a[0]), self.provider(a[1]), metadata=a[2])
            return ("node", str(n.path()))
        if name == "mount_directory":
            n = v.mount_directory(arg_path(a[0]), self.loader(a[1]), metadata=a[2])
            return ("node", str(n.path()))
        if name == "mount_storage":
            if a[1] not in self.stores:
                self.stores[a[1]] = MemoryStorageAdapter(initial=a[2])
            n = v.mount_storage(arg_path(a[0]), self.stores[a[1]],
                                policy=None if a[3] is None else mk_policy(a[3]))
            return ("node", str(n.path()))
        if name == "sync_storage":
            return v.sync_storage(arg_path(a[0]))
        if name == "ext_write":
            s = self.stores[a[0]]
            cur = s.list().get(a[1])
            s.write(a[1], a[2], version=cur.version if cur else 0)
            return None
        if name == "ext_delete":
            self.stores[a[0]].delete(a[1])
            return None
        if name == "write_hook":
            hid = a[1]
            v.register_write_hook(arg_path(a[0]), lambda e: self.log.append(
                ("w", hid, e.path, e.content, e.version, e.append)))
            return None
        if name == "path_hook":
            hid = a[1]
            v.register_path_hook(arg_path(a[0]), lambda e: self.log.append(
                ("p", hid, e.path, e.event, e.content)))
            return None
        if name == "enable_index":
            v.enable_full_text_index()
            return None
        raise AssertionError(name)

    def dump(self):
        """path -> (kind, text, policy, metadata, version), found by following the entries."""
        out, bad, seen = {}, [], {}
        self.quiet = True

        def go(n, segs, parent):
            key = M.show(segs)
            if id(n) in seen:
                bad.append("%s and %s are the same node" % (seen[id(n)], key))
                return
            seen[id(n)] = key
            if n.parent is not parent:
                bad.append("parent of %s is not its directory" % key)
            if segs and n.name != segs[-1]:
                bad.append("entry %s holds a node named %r" % (key, n.name))
            else:
                try:
                    p = str(n.path())
                except Exception as exc:
                    p = repr(exc)
                if p != key:
                    bad.append("node at %s reports path %s" % (key, p))
            if isinstance(n, VirtualDirectory):
                n.ensure_loaded(self.vfs)
                out[key] = ("d", None, pkey(n.policy), dict(n.metadata), n.version)
                if len(segs) > 40:
                    bad.append("directory nested inside itself at %s" % key)
                    return
                for k, c in list(n.children.items()):
                    go(c, segs + (k,), n)
            else:
                try:
                    t = n.read(self.vfs)
                except SandboxError:
                    t = FAIL
                out[key] = ("f", t, pkey(n.policy), dict(n.metadata), n.version)
        go(self.vfs.root, (), None)
        self.quiet = False
        return out, bad, seen


def pkey(p):
    return (p.readable, p.writable, p.append_only, p.classification, tuple(sorted(p.principals)))


def mk_query(q):
    return SearchQuery(query=q["query"], regex=q["regex"], ignore_case=q["ignore_case"],
                       path_prefix=None if q["path_prefix"] is None else
                       PurePosixPath(q["path_prefix"]))


class Mod:
    """The model driven by the same JSON operations."""

    def __init__(self):
        self.m = M.Model()
        self.stores = {}
        self.snaps = {}

    def provider(self, spec):
        def provide(path, meta):
            if spec == "fail":
                raise M.ProviderFails()
            return provider_text(spec, path, meta)
        return provide

    def build(self, s):
        def make(name):
            n = M.MNode("f" if s["kind"] == "file" else "d", name)
            if s.get("policy"):
                n.policy = mk_mpolicy(s["policy"])
            n.meta = dict(s.get("meta") or {})
            if s["kind"] == "file":
                n.text = s.get("text") or ""
                if "provider" in s:
                    n.provider = self.provider(s["provider"])
            elif "loader" in s:
                n.loader = self.loader(s["loader"])
                n.loaded = False
            else:
                for k, v in s.get("children", {}).items():
                    c = self.build(v)(k)
                    c.parent = n
                    n.children[k] = c
            return n
        return make

    def loader(self, spec):
        return lambda: {k: self.build(v) for k, v in spec.items()}

    def run(self, op):
        m, name, a = self.m, op[0], op[1:]
        m.refusal_partial = False
        p0 = arg_path(a[0]) if a and (isinstance(a[0], (str, dict))) and name not in (
            "search", "snapshot", "restore", "ext_write", "ext_delete") else None
        if name in ("write_file", "append_file"):
            r = getattr(m, name)(p0, a[1], **(a[2] if len(a) > 2 else {}))
        elif name in ("touch", "read_file", "cd", "exists", "is_dir", "is_file", "get_version",
                      "get_policy"):
            r = getattr(m, name)(p0)
        elif name == "mkdir":
            r = m.mkdir(p0, a[1], a[2])
        elif name == "remove":
            r = m.remove(p0, a[1])
        elif name == "move":
            r = m.move(p0, arg_path(a[1]))
        elif name == "copy":
            r = m.copy(p0, arg_path(a[1]), a[2])
        elif name == "pwd":
            r = m.pwd()
        elif name in ("ls", "tree"):
            r = getattr(m, name)(p0, mk_mview(a[1]))
        elif name == "walk":
            r = m.walk(p0)
        elif name == "iter_files":
            r = m.iter_files(p0, a[1])
        elif name == "set_policy":
            r = m.set_policy(p0, mk_mpolicy(a[1]))
        elif name == "node_policy":
            n = m.find(p0)
            if a[1] == "principals":
                n.policy.principals.add(a[2])
            else:
                setattr(n.policy, a[1], a[2])
            r = None
        elif name == "node_meta":
            m.find(p0).meta[a[1]] = a[2]
            r = None
        elif name == "get_node":
            r = M.show(m.find(p0).segs())
        elif name == "search":
            r = m.search(a[0], mk_mview(a[1]))
        elif name == "snapshot":
            self.snaps[a[0]] = m.snapshot()
            r = None
        elif name == "restore":
            r = m.restore(self.snaps[a[0]])
        elif name == "mount_file":
            r = m.mount_file(p0, self.provider(a[1]), a[2])
        elif name == "mount_directory":
            r = m.mount_directory(p0, self.loader(a[1]), a[2])
        elif name == "mount_storage":
            if a[1] not in self.stores:
                self.stores[a[1]] = M.Store(a[2])
            r = m.mount_storage(p0, self.stores[a[1]], None if a[3] is None else mk_mpolicy(a[3]))
        elif name == "sync_storage":
            r = m.sync_storage(p0)
        elif name == "ext_write":
            s = self.stores[a[0]]
            s.write(a[1], a[2], s.entries[a[1]][1] if a[1] in s.entries else 0)
            r = None
        elif name == "ext_delete":
            self.stores[a[0]].delete(a[1])
            r = None
        elif name == "write_hook":
            r = m.register_write_hook(p0, a[1])
        elif name == "path_hook":
            r = m.register_path_hook(p0, a[1])
        elif name == "enable_index":
            r = None
        else:
            raise AssertionError(name)
        if isinstance(r, tuple) and len(r) == 2 and r[0] == "node":
            r = ("node", M.show(r[1]))
        return r

    def dump(self, load=True):
        out = {}
        for n in self.m.walk_nodes(load=load):
            t = None
            if n.kind == "f":
                try:
                    t = self.m.text(n)
                except M.Refused:
                    t = FAIL
            out[M.show(n.segs())] = (n.kind, t, n.policy.key(), dict(n.meta), n.version)
        return out

    def nodes(self):
        return {M.show(n.segs()): n for n in self.m.walk_nodes(load=False)}


REASON = {"policy": {"C05"}, "version": {"C09"}, "storage": {"C11"}, "unreadable": {"C06"},
          "inside": {"C02"}, "exists": {"C04", "C19"}, "same": {"C19"}, "notfound": {"C01"},
          "notdir": {"C01"}, "root": {"C01"}, "isdir": {"C01"}, "notempty": {"C04"},
          "provider": {"C21"}, "nomount": {"C11"}}
OWN = {"write_file": {"C03"}, "append_file": {"C03"}, "touch": {"C03"}, "mkdir": {"C03"},
       "remove": {"C01"}, "move": {"C19"}, "copy": {"C19"}, "read_file": {"C01", "C03"},
       "cd": {"C01"}, "exists": {"C01"}, "is_dir": {"C01"}, "is_file": {"C01"},
       "get_version": {"C09"}, "pwd": {"C01"}, "ls": {"C01"}, "tree": {"C01"}, "walk": {"C01", "C02"},
       "iter_files": {"C01", "C15"}, "get_policy": {"C01"}, "set_policy": {"C01"},
       "node_policy": {"C01"}, "node_meta": {"C01"}, "get_node": {"C01"}, "search": {"C15"},
       "snapshot": {"C14"}, "restore": {"C14"}, "mount_file": {"C21"}, "mount_directory": {"C21"},
       "mount_storage": {"C11"}, "sync_storage": {"C11"}, "ext_write": {"C12"},
       "ext_delete": {"C12"}, "write_hook": {"C10"}, "path_hook": {"C10"}, "enable_index": {"C15"}}
C04_OPS = {"write_file", "append_file", "touch", "mkdir", "move", "copy", "remove"}
C05_OPS = C04_OPS
READERS = {"read_file", "exists", "is_dir", "is_file", "get_version", "pwd", "ls", "tree", "walk",
           "iter_files", "get_policy", "get_node", "search", "snapshot"}


class Hang(BaseException):
    """The code under test did not come back."""


CASE_SECONDS = 20


def _alarm(*_):
    raise Hang()


def arm(seconds=CASE_SECONDS):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Mismatch(Exception):
    def __init__(self, props, msg):
        super().__init__(msg)
        self.props, self.msg = set(props), msg


def call(side, op):
    try:
        return ("ok", side.run(op))
    except M.Refused as exc:
        return ("refused", exc.reason)
    except SandboxError as exc:
        return ("refused", exc)
    except RecursionError as exc:
        return ("error", exc)
    except Exception as exc:
        return ("error", exc)


def state_props(op, refused, aspect, path, rp, mp):
    """Properties broken by a difference in one aspect of one node after an operation."""
    name = op[0]
    if refused:
        return {"C04"} if name in C04_OPS else {"C03"}
    if name in READERS or name in ("cd", "write_hook", "path_hook", "ext_write", "ext_delete",
                                   "enable_index"):
        base = {"C03"} if aspect in ("text", "paths") else {"C09"} if aspect == "version" else {"C03"}
        if name == "ext_write" or name == "ext_delete":
            base |= {"C11", "C12"}
        return base
    if name == "restore":
        return {"C14"}
    if name in ("mount_storage", "sync_storage"):
        return {"C11"}
    if name in ("mount_file", "mount_directory"):
        return {"C21"}
    if name in ("write_file", "append_file"):
        if aspect == "version":
            return {"C09"} if path == "target" else {"C09", "C03"}
        return {"C03"}
    if name == "touch":
        return {"C09", "C03"} if aspect == "version" else {"C03"}
    if name == "mkdir":
        return {"C03"}
    if name == "remove":
        return {"C03", "C01"} if aspect == "paths" else {"C03"}
    if name in ("move", "copy"):
        return {"C19", "C09"} if aspect == "version" else {"C19"}
    if name in ("set_policy", "node_policy", "node_meta"):
        return {"C19", "C14"} if path == "other" else {"C01"}
    return {"C03"}


class Session:
    def __init__(self, opts=None):
        self.real, self.mod = Real(), Mod()
        self.opts = opts or {}
        self.pair = {}
        self.index_on = False
        self.stale = False
        self.dynamic = set()     # names of nodes whose text is not stored
        self.sticky = {}         # path -> reason it is excluded from index comparison
        self.history = []
        self.nlog = 0
        self.frozen_snaps = {}

    def step(self, op, observe=True, queries=()):
        arm()
        try:
            return self._step(op, observe, queries)
        except Hang:
            raise Mismatch(set(OWN[op[0]]) | {"C02"}, "%r does not come back" % (op,))
        finally:
            disarm()

    def _step(self, op, observe=True, queries=()):
        self.history.append(op)
        name = op[0]
        if name == "mount_directory":       # when a directory is first needed is not specified: settle it
            self.real.dump()
            self.mod.dump()
        pre = self.mod.dump(load=False) if name in C05_OPS and observe else {}
        self.unloaded = {M.show(n.segs()) for n in self.mod.m.peek() if not n.loaded}
        self.mod_src = self.mod.m.norm(arg_path(op[1])) if name in C05_OPS else None
        mo = call(self.mod, op)
        partial = self.mod.m.refusal_partial
        ro = call(self.real, op)
        self.real.calls.clear()
        if mo[0] == "error":
            raise AssertionError("model error on %r: %r" % (op, mo[1]))
        if name == "search" and mo[0] == "refused" and self.index_on:
            return mo        # a failing provider: what the index skipped is not specified
        rdesc = ro[1] if ro[0] == "ok" else "%s(%s)" % (type(ro[1]).__name__, ro[1])
        if mo[0] == "ok" and ro[0] != "ok":
            props = set(OWN[name])
            if ro[0] == "refused" and isinstance(ro[1], ProviderError):
                props |= {"C21"}
            raise Mismatch(props, "%r should succeed but gave %s" % (op, rdesc))
        if mo[0] == "refused" and ro[0] != "refused":
            if ro[0] == "error":
                raise Mismatch(REASON.get(mo[1], set()) | OWN[name] | (
                    {"C04"} if name in C04_OPS else set()),
                    "%r should be refused (%s) but raised %s" % (op, mo[1], rdesc))
            props = set(REASON.get(mo[1], {"C04"}))
            if mo[1] == "policy" and name == "mkdir":
                props = {"C05"}
            raise Mismatch(props, "%r should be refused (%s) but succeeded" % (op, mo[1]))
        if mo[0] == "ok" and not self.same_value(op, ro[1], mo[1]):
            raise Mismatch(self.value_props(op, ro[1], mo[1]),
                           "%r returned %r, expected %r" % (op, ro[1], mo[1]))
        refused = mo[0] == "refused"
        if name == "enable_index":
            self.index_on = True
        if refused and name in ("mount_storage", "sync_storage"):
            self.stale = True       # entries that are no tree ("a" and "a/b"): the rest of the load is not specified
        self.check_log(op, refused)
        if observe:
            self.observe(op, refused, partial, pre)
            self.check_search(op, refused, queries)
        return mo

    def same_value(self, op, r, m):
        if op[0] in ("walk", "iter_files", "search"):
            if op[0] == "search" and self.index_on and self.stale:
                return True
            if op[0] == "search" and self.index_on:
                keep = lambda x: not self.excluded(x[0])
                return sorted(filter(keep, r)) == sorted(filter(keep, m))
            return sorted(r) == sorted(m)
        return r == m

    def value_props(self, op, r, m):
        name = op[0]
        if name == "read_file":
            return {"C03", "C21"}
        if name == "ls" and op[2] is not None:
            return {"C07", "C08"}
        if name == "tree" and op[2] is not None:
            return {"C07", "C08"}
        if name == "search":
            return {"C15"} | ({"C06"} if len(r) > len(m) else set()) | (
                {"C07"} if op[2] is not None else set())
        return OWN[name]

    def check_log(self, op, refused):
        real, mod = self.real.log, self.mod.m.log
        for kind in ("w", "p"):
            r = [e for e in real if e[0] == kind]
            m = [e for e in mod if e[0] == kind]
            if r != m:
                raise Mismatch({"C10"} | ({"C04"} if False else set()),
                               "after %r hooks saw %r, expected %r" % (op, r, m))
        real.clear()
        mod.clear()

    def observe(self, op, refused, partial, pre):
        name = op[0]
        rd, bad, seen = self.real.dump()
        md = self.mod.dump()
        if bad:
            raise Mismatch({"C02"}, "after %r: %s" % (op, bad[0]))
        # policies that nothing may bypass (independent of the model's exact outcome)
        if name in C05_OPS:
            src = M.show(self.mod_src) if self.mod_src is not None else None
            self.check_policies(op, pre, rd, src)
        rpwd, mpwd = self.real.vfs.pwd(), self.mod.m.pwd()
        if rpwd != mpwd:
            raise Mismatch({"C14"} if name == "restore" else {"C01"},
                           "after %r pwd is %s, expected %s" % (op, rpwd, mpwd))
        if not (refused and partial):
            target = None
            if op[1:] and isinstance(op[1], (str, dict)) and name not in ("snapshot", "restore"):
                try:
                    target = M.show(self.mod.m.norm(arg_path(op[1])))
                except Exception:
                    target = None
            for p in sorted(set(rd) | set(md)):
                where = "target" if p == target else "other"
                if p not in rd or p not in md:
                    raise Mismatch(state_props(op, refused, "paths", where, rd, md),
                                   "after %r (%s) path %s %s" % (
                                       op, "refused" if refused else "ok", p,
                                       "is missing" if p not in rd else "should not exist"))
                for i, asp in enumerate(("kind", "text", "policy", "metadata", "version")):
                    if rd[p][i] != md[p][i]:
                        raise Mismatch(state_props(op, refused, asp, where, rd, md),
                                       "after %r (%s) %s of %s is %r, expected %r" % (
                                           op, "refused" if refused else "ok", asp, p,
                                           rd[p][i], md[p][i]))
        for sid, st in self.real.stores.items():
            got = {k: (e.content, e.version) for k, e in st.list().items()}
            exp = self.mod.stores[sid].entries
            if got != exp:
                raise Mismatch({"C04"} if refused and name in C04_OPS and not partial else
                               {"C12", "C11"} if name.startswith("ext") else {"C11"},
                               "after %r (%s) storage %s holds %r, expected %r" % (
                                   op, "refused" if refused else "ok", sid, got, exp))
        # the very same nodes after a move
        rn = {k: n for n, k in ((id_, key) for id_, key in seen.items())}
        mn = self.mod.nodes()
        if name in ("move", "write_file", "append_file", "touch", "set_policy"):
            for p, n in mn.items():
                old = self.pair.get(id(n))
                if old is not None and old[0] is n and rn.get(p) != old[1]:
                    raise Mismatch({"C19"} if name == "move" else {"C03"},
                                   "after %r the node at %s is a different object" % (op, p))
        self.pair = {id(n): (n, rn.get(p)) for p, n in mn.items()}
        self.keep = [self.real.vfs.root]

    def check_policies(self, op, pre, rd, src):
        full = pre
        if op[0] == "move":     # what lies inside a moved directory travels with it
            pre = {p: v for p, v in pre.items() if not p.startswith(src.rstrip("/") + "/")}
        append = op[0] == "append_file" or (op[0] == "write_file" and len(op) > 3
                                            and op[3].get("append"))
        for p, (kind, text, pol, meta, ver) in pre.items():
            readable, writable, ao = pol[0], pol[1], pol[2]
            cur = rd.get(p)
            if not writable or ao:
                if cur is None:
                    raise Mismatch({"C05"}, "%r removed or moved %s although %s" % (
                        op, p, "not writable" if not writable else "append-only"))
                if not writable and (cur[0], cur[1], cur[2], cur[4]) != (kind, text, pol, ver):
                    raise Mismatch({"C05"}, "%r changed %s although not writable" % (op, p))
                if ao and writable and kind == "f" and cur[1] != text and not (
                        append and cur[1].startswith(text)):
                    raise Mismatch({"C05"}, "%r changed append-only %s" % (op, p))
            if kind == "d" and not writable and p not in self.unloaded:
                depth = p.rstrip("/") + "/"
                a = {k for k in full if k.startswith(depth) and "/" not in k[len(depth):] and k != p}
                b = {k for k in rd if k.startswith(depth) and "/" not in k[len(depth):] and k != p}
                if a != b:
                    raise Mismatch({"C05"}, "%r changed the entries of read-only directory %s" % (
                        op, p))

    # -- search and index --------------------------------------------------
    def excluded(self, path):
        segs = M.normalize((), path)
        n = self.mod.m.root
        if n.loader is not None:
            return True
        for s in segs:
            n = n.children.get(s)
            if n is None:
                return True
            if n.loader is not None or n.provider is not None:
                return True
        return path in self.sticky

    def searchable(self, q):
        """The prefix names a readable node or nothing."""
        n = self.mod.m.peek_at(self.mod.m.norm(q["path_prefix"]) if q["path_prefix"] is not None else ())
        return n is None or n.policy.readable

    def check_search(self, op, refused, queries):
        if op[0] in ("mount_file", "mount_directory"):
            for p, n in self.mod.nodes().items():
                if n.provider is not None or n.loader is not None:
                    self.sticky[p] = 1
        for q, view in queries:
            if not self.searchable(q):
                continue
            m = call(self.mod, ["search", q, view])
            r = call(self.real, ["search", q, view])
            if m[0] != "ok" or self.index_on and self.stale:
                continue
            if r[0] != "ok":
                raise Mismatch({"C15"}, "after %r search %r raised %r" % (op, q, r[1]))
            rv, mv = r[1], m[1]
            if self.index_on:
                rv = [x for x in rv if not self.excluded(x[0])]
                mv = [x for x in mv if not self.excluded(x[0])]
            if sorted(rv) != sorted(mv):
                props = {"C15"}
                if refused and op[0] in C04_OPS:
                    props.add("C04")
                for x in set(rv) - set(mv):
                    n = self.mod.nodes().get(x[0])
                    if n is not None and not n.policy.readable:
                        props.add("C06")
                    if n is not None and view is not None and not M.view_allows(mk_mview(view), n):
                        props.add("C07")
                raise Mismatch(props, "after %r search %r view %r gave %r, expected %r" % (
                    op, q, view, sorted(rv), sorted(mv)))


def replay(history, observe_all=True, queries_at=None):
    s = Session()
    for i, (op, obs, qs) in enumerate(history):
        s.step(op, obs, [tuple(q) for q in qs])
    return s
