"""Reference model of the filesystem: the contracts of /verif/pyvc/contracts in executable form.

Nothing here imports sandfs.  A call returns a value or raises Refused(reason).
"""


class Refused(Exception):
    def __init__(self, reason):
        super().__init__(reason)
        self.reason = reason


class ProviderFails(Exception):
    pass


class MPolicy:
    FIELDS = ("readable", "writable", "append_only", "classification", "principals")

    def __init__(self, readable=True, writable=True, append_only=False,
                 classification="public", principals=()):
        self.readable, self.writable, self.append_only = readable, writable, append_only
        self.classification, self.principals = classification, set(principals)

    def clone(self):
        return MPolicy(self.readable, self.writable, self.append_only, self.classification,
                       self.principals)

    def key(self):
        return (self.readable, self.writable, self.append_only, self.classification,
                tuple(sorted(self.principals)))


class MNode:
    def __init__(self, kind, name, parent=None):
        self.kind, self.name, self.parent = kind, name, parent
        self.meta, self.policy, self.version = {}, MPolicy(), 0
        self.text, self.provider = "", None
        self.children, self.loader, self.loaded = {}, None, True

    def segs(self):
        out, n = [], self
        while n.parent is not None:
            out.append(n.name)
            n = n.parent
        return tuple(reversed(out))


def show(segs):
    return "/" + "/".join(segs)


def normalize(cwd, path):
    """Lexical canonical form; cwd is a tuple of names."""
    text = "" if path is None else str(path)
    out = [] if text.startswith("/") else list(cwd)
    for part in text.split("/"):
        if part in ("", "."):
            continue
        if part == "..":
            if out:
                out.pop()
        else:
            out.append(part)
    return tuple(out)


def under(path, prefix):
    return path[: len(prefix)] == prefix


def view_allows_policy(view, policy):
    if policy.principals:
        return view["principals"] is not None and bool(policy.principals & set(view["principals"]))
    return view["classifications"] is None or policy.classification in view["classifications"]


def view_allows(view, node):
    if view is None:
        return True
    if not view_allows_policy(view, node.policy):
        return False
    if view["path_prefixes"] is not None:
        p = node.segs()
        if not any(under(p, q) or under(q, p) for q in view["path_prefixes"]):
            return False
    if view["metadata_filters"] is not None:
        missing = object()
        for k, v in view["metadata_filters"].items():
            got = node.meta.get(k, None)
            if got != v:
                return False
    return True


class Store:
    """Model of a storage adapter with optimistic versions."""

    def __init__(self, initial=()):
        self.entries = {k: (v, 0) for k, v in dict(initial).items()}

    def write(self, key, text, version):
        if key in self.entries and self.entries[key][1] != version:
            raise ValueError("version mismatch")
        self.entries[key] = (text, version + 1)

    def delete(self, key):
        self.entries.pop(key, None)


class Model:
    def __init__(self):
        self.root = MNode("d", "")
        self.cwd = self.root
        self.mounts = {}          # segs -> Store
        self.whooks, self.phooks = [], []   # (segs, id)
        self.log = []
        self.sv_prefix = None
        self.refusal_partial = False

    # -- paths ----------------------------------------------------------
    def norm(self, path):
        return normalize(self.cwd.segs(), path)

    def load(self, d):
        if d.loaded:
            return
        if d.loader is not None:
            for name, build in d.loader().items():
                if name not in d.children:
                    child = build(name)
                    child.parent = d
                    d.children[name] = child
        d.loaded = True

    def look(self, segs):
        n = self.root
        for s in segs:
            if n.kind != "d":
                raise Refused("notdir")
            self.load(n)
            if s not in n.children:
                raise Refused("notfound")
            n = n.children[s]
        return n

    def find(self, path):
        return self.look(self.norm(path))

    def has(self, segs):
        try:
            self.look(segs)
            return True
        except Refused:
            return False

    def dir_at(self, segs, create=False):
        n = self.root
        for s in segs:
            if n.kind != "d":
                raise Refused("notdir")
            self.load(n)
            if s not in n.children:
                if not create:
                    raise Refused("notfound")
                n.children[s] = MNode("d", s, n)
            n = n.children[s]
        if n.kind != "d":
            raise Refused("notdir")
        return n

    def text(self, f):
        if f.provider is not None:
            try:
                return f.provider(show(f.segs()), f.meta)
            except ProviderFails:
                raise Refused("provider")
        return f.text

    # -- permission helpers ------------------------------------------------
    def can_write(self, n, append=False):
        if not n.policy.writable:
            raise Refused("policy")
        if n.policy.append_only and not append:
            raise Refused("policy")

    def can_create(self, segs):
        missing = None
        while not self.has(segs):
            missing, segs = segs, segs[:-1]
        if missing is not None:
            self.can_write(self.look(segs), append=True)
        return missing

    def file_at(self, segs, create=False):
        if not segs:
            raise Refused("root")
        parent = self.dir_at(segs[:-1], create)
        self.load(parent)
        n = parent.children.get(segs[-1])
        if n is None:
            if not create:
                raise Refused("notfound")
            n = parent.children[segs[-1]] = MNode("f", segs[-1], parent)
            return n
        if n.kind != "f":
            raise Refused("isdir")
        return n

    # -- storage and events --------------------------------------------------
    def mount_of(self, segs):
        best = None
        for prefix, store in self.mounts.items():
            if under(segs, prefix) and (best is None or len(prefix) > len(best[0])):
                best = (prefix, store)
        return best

    def emit(self, kind, segs, *payload):
        hooks = self.whooks if kind == "w" else self.phooks
        for prefix, hid in hooks:
            if under(segs, prefix):
                self.log.append((kind, hid, show(segs)) + payload)

    # -- operations ----------------------------------------------------------
    def write_file(self, path, data, append=False, expected_version=None):
        segs = self.norm(path)
        missing = self.can_create(segs)
        if missing is not None and expected_version:
            raise Refused("version")
        if missing is None:
            n = self.look(segs)
            if n.kind == "d":
                raise Refused("isdir" if segs else "root")
            self.can_write(n, append)
            if expected_version is not None and n.version != expected_version:
                raise Refused("version")
            old, prev = (self.text(n) if append else ""), n.version
        else:
            top = self.look(missing[:-1])
            if top.kind != "d":
                raise Refused("notdir")
            old, prev = "", 0
        new = old + data
        m = self.mount_of(segs)
        if m:
            rel = "/".join(segs[len(m[0]):]) or "."
            try:
                m[1].write(rel, new, prev)
            except ValueError:
                raise Refused("storage")
        n = self.file_at(segs, create=True)
        n.text, n.provider, n.version = new, None, prev + 1
        self.emit("w", segs, new, prev + 1, bool(append))
        self.emit("p", segs, "create" if prev == 0 else "update", new)
        return ("node", segs)

    def append_file(self, path, data, expected_version=None):
        return self.write_file(path, data, True, expected_version)

    def read_file(self, path):
        n = self.file_at(self.norm(path))
        if not n.policy.readable:
            raise Refused("unreadable")
        return self.text(n)

    def touch(self, path):
        segs = self.norm(path)
        missing = self.can_create(segs)
        if missing is not None and self.look(missing[:-1]).kind != "d":
            raise Refused("notdir")
        n = self.file_at(segs, create=True)
        self.can_write(n, True)
        return ("node", segs)

    def mkdir(self, path, parents=False, exist_ok=False):
        segs = self.norm(path)
        if not segs:
            return ("node", segs)
        if parents:
            missing = self.can_create(segs)
            if missing is not None and self.look(missing[:-1]).kind != "d":
                raise Refused("notdir")
        if self.has(segs[:-1]):
            par = self.look(segs[:-1])
            if par.kind != "d":
                raise Refused("notdir")
            self.can_write(par)
        parent = self.dir_at(segs[:-1], create=parents)
        self.load(parent)
        if segs[-1] in parent.children:
            n = parent.children[segs[-1]]
            if n.kind != "d":
                raise Refused("notdir")
            if not exist_ok:
                raise Refused("exists")
            return ("node", segs)
        parent.children[segs[-1]] = MNode("d", segs[-1], parent)
        return ("node", segs)

    def remove(self, path, recursive=False):
        segs = self.norm(path)
        if not segs:
            raise Refused("root")
        self.refusal_partial = bool(recursive)
        self._remove(self.look(segs), recursive)

    def _remove(self, n, recursive):
        if n.kind == "d":
            self.load(n)
        self.can_write(n)
        self.can_write(n.parent)
        if n.kind == "d" and n.children and not recursive:
            raise Refused("notempty")
        if n.kind == "d" and recursive:
            for c in list(n.children.values()):
                self._remove(c, True)
        del n.parent.children[n.name]
        if n.kind == "f":
            segs = n.segs()
            m = self.mount_of(segs)
            if m:
                m[1].delete("/".join(segs[len(m[0]):]) or ".")
            self.emit("p", segs, "delete", None)

    def _destination(self, node, dest, replace):
        if self.has(dest):
            d = self.look(dest)
            if d.kind == "d":
                self.can_write(d)
                return d, node.name, False
            if not replace:
                raise Refused("exists")
            self.can_write(d.parent)
            self.can_write(d)
            if d is node:
                raise Refused("same")
            return d.parent, d.name, True
        p = self.dir_at(dest[:-1])
        self.can_write(p)
        return p, dest[-1], False

    def move(self, source, target):
        src = self.norm(source)
        if not src:
            raise Refused("root")
        n = self.look(src)
        self.can_write(n)
        self.can_write(n.parent)
        p, name, _ = self._destination(n, self.norm(target), False)
        if n.kind == "d" and under(p.segs(), n.segs()):
            raise Refused("inside")
        if p is n.parent and name == n.name:
            return None
        self.load(p)
        if name in p.children:
            raise Refused("exists")
        del n.parent.children[n.name]
        n.name, n.parent = name, p
        p.children[name] = n

    def copy(self, source, target, recursive=False):
        n = self.find(source)
        if n.kind == "d" and not recursive:
            raise Refused("isdir")
        if not n.policy.readable:
            raise Refused("unreadable")
        p, name, replaces = self._destination(n, self.norm(target), True)
        if n.kind == "d" and under(p.segs() + (name,), n.segs()):
            raise Refused("inside")
        self.load(p)
        c = self.clone(n)
        if name in p.children and not replaces:
            raise Refused("exists")
        if replaces:
            del p.children[name]
        c.name, c.parent = name, p
        p.children[name] = c

    def clone(self, n):
        c = MNode(n.kind, n.name)
        c.meta, c.policy = dict(n.meta), n.policy.clone()
        if n.kind == "f":
            c.text = self.text(n)
        else:
            self.load(n)
            for k in n.children.values():
                kc = self.clone(k)
                kc.parent = c
                c.children[kc.name] = kc
        return c

    def cd(self, path):
        n = self.find(path)
        if n.kind != "d":
            raise Refused("notdir")
        if not n.policy.readable:
            raise Refused("unreadable")
        self.cwd = n
        return show(n.segs())

    def pwd(self):
        return show(self.cwd.segs())

    def ls(self, path=None, view=None):
        n = self.look(self.norm(path)) if path else self.look(self.cwd.segs())
        if n.kind != "d":
            raise Refused("notdir")
        if not n.policy.readable:
            raise Refused("unreadable")
        self.load(n)
        out = [(c.name, show(c.segs()), c.kind == "d", dict(c.meta), c.policy.key())
               for c in n.children.values() if view_allows(view, c)]
        return sorted(out, key=lambda e: (not e[2], e[0]))

    def exists(self, path):
        return self.has(self.norm(path))

    def is_dir(self, path):
        s = self.norm(path)
        return self.has(s) and self.look(s).kind == "d"

    def is_file(self, path):
        s = self.norm(path)
        return self.has(s) and self.look(s).kind == "f"

    def get_version(self, path):
        n = self.find(path)
        if n.kind != "f":
            raise Refused("isdir")
        return n.version

    def get_policy(self, path):
        return self.find(path).policy.key()

    def set_policy(self, path, policy):
        self.find(path).policy = policy

    def walk_nodes(self, n=None, load=True):
        n = self.root if n is None else n
        yield n
        if n.kind == "d":
            if load:
                self.load(n)
            for c in list(n.children.values()):
                yield from self.walk_nodes(c, load)

    def peek(self):
        return list(self.walk_nodes(load=False))

    def peek_at(self, segs):
        n = self.root
        for s in segs:
            n = n.children.get(s) if n is not None and n.kind == "d" else None
        return n

    def walk(self, path=None):
        n = self.look(self.norm(path)) if path else self.look(self.cwd.segs())
        return [show(x.segs()) for x in self.walk_nodes(n)]

    def iter_files(self, path=None, recursive=True):
        n = self.look(self.norm(path)) if path else self.look(self.cwd.segs())
        if not n.policy.readable:
            raise Refused("unreadable")
        if n.kind == "f":
            return [show(n.segs())]
        if recursive:
            return [show(x.segs()) for x in self.walk_nodes(n) if x.kind == "f"]
        self.load(n)
        return [show(x.segs()) for x in n.children.values() if x.kind == "f"]

    def tree(self, path=None, view=None):
        n = self.look(self.norm(path)) if path else self.look(self.cwd.segs())
        if n.kind != "d":
            raise Refused("notdir")
        if not n.policy.readable:
            raise Refused("unreadable")
        lines = []

        def render(d, prefix):
            self.load(d)
            kids = sorted((c for c in d.children.values() if view_allows(view, c)),
                          key=lambda c: (c.kind != "d", c.name))
            for i, c in enumerate(kids):
                end = i == len(kids) - 1
                lines.append(prefix + ("└──" if end else "├──") + " " + c.name
                             + ("/" if c.kind == "d" else ""))
                if c.kind == "d":
                    render(c, prefix + ("    " if end else "│   "))
        render(n, "")
        return "\n".join([show(n.segs())] + lines)

    def search(self, q, view=None):
        prefix = self.norm(q["path_prefix"]) if q["path_prefix"] is not None else ()
        if not self.has(prefix):
            return []
        out = []
        for n in self.walk_nodes(self.look(prefix)):
            if n.kind != "f" or not n.policy.readable or not view_allows(view, n):
                continue
            if self.sv_prefix is not None and under(n.segs(), self.sv_prefix):
                continue
            for i, line in enumerate(self.text(n).splitlines(), 1):
                if matches(q, line):
                    out.append((show(n.segs()), i, line))
        return out

    def snapshot(self):
        nodes = {}
        for n in self.walk_nodes():
            nodes[n.segs()] = (n.kind, dict(n.meta), n.policy.clone(), n.version,
                               self.text(n) if n.kind == "f" else None)
        return (nodes, self.cwd.segs(), dict(self.mounts))

    def restore(self, snap):
        nodes, cwd, mounts = snap
        self.root = MNode("d", "")
        for segs in sorted(nodes, key=len):
            kind, meta, pol, ver, text = nodes[segs]
            if not segs:
                n = self.root
            else:
                par = self.look(segs[:-1])
                n = par.children[segs[-1]] = MNode(kind, segs[-1], par)
            n.meta, n.policy, n.version = dict(meta), pol.clone(), ver
            if kind == "f":
                n.text = text
        self.mounts = dict(mounts)
        self.cwd = self.root
        if self.has(cwd) and self.look(cwd).kind == "d":
            self.cwd = self.look(cwd)

    def mount_file(self, path, provider, metadata=None):
        n = self.file_at(self.norm(path), create=True)
        n.provider = provider
        n.meta.update(metadata or {})
        return ("node", n.segs())

    def mount_directory(self, path, loader, metadata=None):
        segs = self.norm(path)
        self.mkdir(path, True, True)
        n = self.look(segs)
        n.loader, n.loaded = loader, False
        n.meta.update(metadata or {})
        return ("node", segs)

    def mount_storage(self, path, store, policy=None):
        segs = self.norm(path)
        self.mkdir(path, True, True)
        if policy is not None:
            self.look(segs).policy = policy
        self.mounts[segs] = store
        self._fill(segs, store)
        return ("node", segs)

    def sync_storage(self, path):
        segs = self.norm(path)
        if segs not in self.mounts:
            raise Refused("nomount")
        self._fill(segs, self.mounts[segs])

    def _fill(self, segs, store):
        d = self.dir_at(segs)
        d.children.clear()
        d.loaded = True
        for rel, (text, ver) in store.entries.items():
            n = self.file_at(segs + tuple(rel.split("/")), create=True)
            n.text, n.version = text, ver

    def register_write_hook(self, prefix, hid):
        self.whooks.append((self.norm(prefix), hid))

    def register_path_hook(self, prefix, hid):
        self.phooks.append((self.norm(prefix), hid))


def matches(q, line):
    import re
    if q["regex"]:
        flags = re.MULTILINE | (re.IGNORECASE if q["ignore_case"] else 0)
        return re.search(q["query"], line, flags) is not None
    if q["ignore_case"]:
        return bool(q["query"]) and q["query"].lower() in line.lower()
    return q["query"] in line
