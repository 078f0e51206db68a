"""Random histories: profiles per property, and constants taken from the source under test."""
import ast
import glob
import json
import os
import random
import time

from . import diff as D
from . import model as M

NAMES = ["a", "b", "ab", "a.txt", "c", ".h", "A", "é", "x y", "d", "a b", "...", "*", "b.", "0"]
TEXTS = ["", "x", "hello\n", "Hello world\nhello again\n", "one\ntwo\nthree", "tab\tx\n\nfoo\n",
         "a\r\nb\r\nfoo", "foo\x0bbar\x0cbaz", "foo\u2028bar", "FOO bar foo\nfoo", "foo", " ", "0",
         "ünï foo\n", "line1\nfoo line2\n", "needle\n", "x" * 70 + "\n"]
QUERIES = ["foo", "hello", "Hello", "o", "x", "", "FOO", "a", "needle", "two", "l+o", "^foo", "b.r", "l$", "^$"]
CLASSES = ["public", "secret", "internal", ""]
PRINCIPALS = ["alice", "bob", "carol"]
METAKEYS = ["k", "team", "n"]
METAVALS = ["v", "w", 1, 0, None, True, ""]


def mined(repo):
    """String and integer constants of the current source: bugs often hide behind them."""
    strs, ints = set(), set()
    for f in sorted(glob.glob(os.path.join(repo, "sandfs", "*.py"))):
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except SyntaxError:
            continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(
                    n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                docs.add(id(n.body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str) and 0 < len(n.value) <= 24:
                    strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool) and 0 < abs(n.value) < 5000:
                    ints.add(n.value)
    return sorted(strs), sorted(ints)


class Gen:
    def __init__(self, rng, profile, consts=((), ())):
        self.rng, self.profile = rng, profile
        strs, ints = consts
        self.names = list(NAMES)
        self.texts = list(TEXTS)
        clean = [s for s in strs if "/" not in s and s not in (".", "..") and "\x00" not in s]
        self.extra_names = clean
        self.extra_texts = list(strs)
        self.ints = list(ints)
        self.slots = 0
        self.stores = 0
        self.hooks = 0
        k = rng.choice([2, 3, 4, 5])
        pool = rng.sample(self.names, k)
        if clean and rng.random() < 0.5:
            pool += rng.sample(clean, min(len(clean), rng.choice([1, 2])))
        self.pool = pool
        self.depth = rng.choice([2, 3, 3, 4, 5])
        if rng.random() < 0.05:
            self.depth = 12

    def name(self):
        return self.rng.choice(self.pool)

    def text(self):
        r = self.rng
        x = r.random()
        if x < 0.12 and self.extra_texts:
            return r.choice(self.extra_texts) + r.choice(["", "\n", "\nfoo"])
        if x < 0.15:
            return r.choice(self.texts) * r.choice([2, 3])
        if x < 0.16 and self.ints:
            return "y" * r.choice(self.ints) + "\n"
        return r.choice(self.texts)

    def target(self, s, kind=None, fresh=0.3):
        """Segments of an interesting target."""
        r = self.rng
        if r.random() >= fresh:
            nodes = s.mod.m.peek()
            if kind:
                sel = [n for n in nodes if n.kind == kind]
                nodes = sel or nodes
            return r.choice(nodes).segs()
        dirs = [n for n in s.mod.m.peek() if n.kind == "d"]
        base = r.choice(dirs).segs() if r.random() < 0.9 else r.choice(
            s.mod.m.peek()).segs()
        n = r.choice([1, 1, 1, 2, 3])
        segs = base + tuple(self.name() for _ in range(n))
        return segs[: self.depth] or (self.name(),)

    def spell(self, s, segs):
        r = self.rng
        x = r.random()
        cwd = s.mod.m.cwd.segs()
        if x < 0.45:
            text = M.show(segs)
        elif x < 0.70:
            i = 0
            while i < len(cwd) and i < len(segs) and cwd[i] == segs[i]:
                i += 1
            up = len(cwd) - i
            text = "/".join([".."] * up + list(segs[i:]))
            if text == "":
                text = r.choice([".", "", "./"])
        else:
            out = []
            for q in segs:
                z = r.random()
                if z < 0.15:
                    out.append(".")
                elif z < 0.25:
                    out += [self.name(), ".."]
                elif z < 0.3:
                    out.append("")
                out.append(q)
            lead = r.choice(["/", "/", "//", "///", "/../", "/..//../", "/./"])
            text = lead + "/".join(out) + r.choice(["", "", "/", "/.", "//"])
        return {"P": text} if r.random() < 0.2 else text

    def path(self, s, kind=None, fresh=0.3):
        return self.spell(s, self.target(s, kind, fresh))

    def policy(self):
        r = self.rng
        return [r.random() < 0.7, r.random() < 0.6, r.random() < 0.25,
                r.choice(CLASSES[:3]), r.sample(PRINCIPALS, r.choice([0, 0, 0, 1, 2]))]

    def view(self, s):
        r = self.rng
        v = {}
        if r.random() < 0.6:
            v["c"] = r.sample(CLASSES, r.choice([0, 1, 1, 2]))
        if r.random() < 0.5:
            v["p"] = r.sample(PRINCIPALS, r.choice([0, 1, 2]))
        if r.random() < 0.35:
            v["x"] = [M.show(self.target(s)) for _ in range(r.choice([0, 1, 2]))]
        if r.random() < 0.25:
            v["m"] = {r.choice(METAKEYS): r.choice(METAVALS) for _ in range(r.choice([0, 1, 2]))}
        return v

    def query(self, s):
        r = self.rng
        x = r.random()
        text = r.choice(QUERIES)
        if x < 0.1 and self.extra_texts:
            import re
            text = r.choice(self.extra_texts)
            return {"query": text, "regex": False, "ignore_case": r.random() < 0.5,
                    "path_prefix": None}
        pre = None
        if r.random() < 0.5:
            nodes = [n for n in s.mod.m.peek() if n.policy.readable] or [s.mod.m.root]
            segs = r.choice(nodes).segs()
            if r.random() < 0.15:
                segs = segs + (self.name(),)
            pre = M.show(segs) if r.random() < 0.7 else self.spell(s, segs)
            pre = pre["P"] if isinstance(pre, dict) else pre
        return {"query": text, "regex": r.random() < 0.4, "ignore_case": r.random() < 0.4,
                "path_prefix": pre}

    def provided(self, depth=2):
        r = self.rng
        s = {"kind": "file"} if depth == 0 or r.random() < 0.6 else {"kind": "dir"}
        if r.random() < 0.3:
            s["policy"] = self.policy()
        if r.random() < 0.3:
            s["meta"] = {r.choice(METAKEYS): r.choice(METAVALS)}
        if s["kind"] == "file":
            if r.random() < 0.3:
                s["provider"] = self.pspec()
            elif r.random() < 0.9:
                s["text"] = self.text()
        elif r.random() < 0.4:
            s["loader"] = {self.name(): self.provided(depth - 1) for _ in range(r.choice([0, 1, 2]))}
        else:
            s["children"] = {self.name(): self.provided(depth - 1) for _ in range(r.choice([0, 1, 2]))}
        return s

    def pspec(self):
        r = self.rng
        x = r.random()
        return "ctx" if x < 0.5 else "fail" if x < 0.6 else ["const", self.text()]

    def version(self, s, segs):
        r = self.rng
        cur = 0
        n = s.mod.m.peek_at(segs)
        if n is not None:
            cur = n.version
        return r.choice([cur, cur, cur, 0, 1, cur + 1, cur - 1, 2])

    def op(self, s):
        r = self.rng
        names, weights = zip(*self.profile["ops"].items())
        while True:
            k = r.choices(names, weights)[0]
            o = self.make(k, s)
            if o is not None:
                return o

    def make(self, k, s):
        r = self.rng
        if k in ("write_file", "append_file"):
            segs = self.target(s, "f", 0.45)
            kw = {}
            if k == "write_file" and r.random() < 0.25:
                kw["append"] = r.random() < 0.7
            if r.random() < 0.3:
                kw["expected_version"] = self.version(s, segs)
            return [k, self.spell(s, segs), self.text(), kw]
        if k in ("touch",):
            return [k, self.path(s, "f", 0.5)]
        if k in ("read_file", "get_version"):
            return [k, self.path(s, "f", 0.15)]
        if k in ("exists", "is_dir", "is_file", "get_policy", "get_node"):
            return [k, self.path(s, None, 0.2)]
        if k == "cd":
            return [k, self.path(s, "d", 0.1)]
        if k == "pwd":
            return [k]
        if k == "mkdir":
            return [k, self.path(s, "d", 0.7), r.random() < 0.6, r.random() < 0.5]
        if k == "remove":
            return [k, self.path(s, None, 0.05), r.random() < 0.5]
        if k == "move":
            return [k, self.path(s, None, 0.05), self.path(s, "d", 0.45)]
        if k == "copy":
            return [k, self.path(s, None, 0.05), self.path(s, None, 0.45), r.random() < 0.7]
        if k in ("ls", "tree"):
            return [k, None if r.random() < 0.1 else self.path(s, "d", 0.1),
                    self.view(s) if r.random() < 0.5 else None]
        if k == "walk":
            return [k, None if r.random() < 0.1 else self.path(s, "d", 0.1)]
        if k == "iter_files":
            return [k, None if r.random() < 0.1 else self.path(s, "d", 0.1), r.random() < 0.7]
        if k == "set_policy":
            segs = self.target(s, None, 0)
            pol = self.policy()
            if not segs:
                pol[0] = r.random() < 0.8
                if r.random() < 0.7:
                    pol[1], pol[2] = True, False
            return [k, self.spell(s, segs), pol]
        if k == "node_policy":
            segs = self.target(s, None, 0)
            f = r.choice(["readable", "writable", "append_only", "classification", "principals"])
            v = r.choice(CLASSES) if f == "classification" else r.choice(PRINCIPALS) \
                if f == "principals" else r.random() < 0.5
            if not segs and f == "readable" and r.random() < 0.8:
                return None
            return [k, M.show(segs), f, v]
        if k == "node_meta":
            return [k, M.show(self.target(s, None, 0)), r.choice(METAKEYS), r.choice(METAVALS)]
        if k == "search":
            q = self.query(s)
            if not s.searchable(q):
                return None
            return [k, q, self.view(s) if r.random() < 0.4 else None]
        if k == "snapshot":
            self.slots += 1
            return [k, "s%d" % self.slots]
        if k == "restore":
            if not s.mod.snaps:
                return None
            return [k, r.choice(sorted(s.mod.snaps))]
        if k == "mount_file":
            return [k, self.path(s, "f", 0.5), self.pspec(),
                    {r.choice(METAKEYS): r.choice(METAVALS)} if r.random() < 0.3 else None]
        if k == "mount_directory":
            spec = {self.name(): self.provided() for _ in range(r.choice([0, 1, 2, 3]))}
            return [k, self.path(s, "d", 0.6), spec,
                    {r.choice(METAKEYS): r.choice(METAVALS)} if r.random() < 0.3 else None]
        if k == "mount_storage":
            if self.stores and r.random() < 0.2:
                sid = "m%d" % r.randint(1, self.stores)
                if sid in s.mod.stores and "." in s.mod.stores[sid].entries:
                    return None
            else:
                self.stores += 1
                sid = "m%d" % self.stores
            init = {}
            for _ in range(r.choice([0, 1, 2, 3])):
                init[r.choice(["f1", "f2", "sub/f3", "sub/deep/f4"])] = self.text()
            segs = self.target(s, "d", 0.7)
            return [k, self.spell(s, segs), sid, init, None if r.random() < 0.8 else
                    [True, r.random() < 0.8, False, "public", []]]
        if k == "sync_storage":
            live = [m for m in s.mod.m.mounts if s.mod.m.peek_at(m) is not None
                    and s.mod.m.peek_at(m).kind == "d" and "." not in s.mod.m.mounts[m].entries]
            if not live:
                return None
            return [k, self.spell(s, r.choice(live))]
        if k in ("ext_write", "ext_delete"):
            if not s.mod.stores:
                return None
            sid = r.choice(sorted(s.mod.stores))
            key = r.choice(["f1", "f2", "sub/f3", "sub/deep/f4"] + [e for e in sorted(
                s.mod.stores[sid].entries) if e != "."])
            ents = s.mod.stores[sid].entries
            if any(e != key and (e.startswith(key + "/") or key.startswith(e + "/")) for e in ents):
                return None
            return [k, sid, key] + ([self.text()] if k == "ext_write" else [])
        if k in ("write_hook", "path_hook"):
            self.hooks += 1
            if self.hooks > 6:
                return None
            return [k, self.spell(s, self.target(s, "d", 0.3)), self.hooks]
        if k == "enable_index":
            return [k]
        raise AssertionError(k)


BASE = {"write_file": 14, "append_file": 6, "touch": 4, "mkdir": 8, "remove": 6, "move": 8,
        "copy": 8, "read_file": 5, "exists": 2, "is_dir": 1, "is_file": 1, "get_version": 2,
        "get_policy": 1, "get_node": 3, "cd": 4, "pwd": 1, "ls": 3, "walk": 1, "iter_files": 1,
        "tree": 1, "set_policy": 4, "node_policy": 1, "node_meta": 2}


def prof(extra=(), drop=(), obs=(0.9, 0.3), q=0.0, start=()):
    ops = dict(BASE)
    ops.update(dict(extra))
    for d in drop:
        ops.pop(d, None)
    return {"ops": ops, "obs": obs, "q": q, "start": list(start)}


STOR = {"mount_storage": 4, "sync_storage": 2, "ext_write": 3, "ext_delete": 1}
DYN = {"mount_file": 3, "mount_directory": 3}
HOOK = {"write_hook": 3, "path_hook": 3}
SNAP = {"snapshot": 3, "restore": 4}
PROFILES = {
    "C01": prof({"get_node": 12, "exists": 8, "cd": 12, "pwd": 4, "ls": 8, "set_policy": 1}),
    "C02": prof({**DYN, **STOR, **SNAP, "move": 20, "copy": 16, "set_policy": 1}),
    "C03": prof({**DYN, **STOR, "write_file": 20, "append_file": 14, "touch": 8, "set_policy": 2}),
    "C04": prof({**DYN, **STOR, **HOOK, "set_policy": 10, "move": 14, "copy": 14, "enable_index": 1}, q=0.5),
    "C05": prof({"set_policy": 14, "node_policy": 4, "remove": 12, "move": 14, "copy": 14, "mkdir": 12}),
    "C06": prof({"set_policy": 12, "search": 8, "enable_index": 0.5, "read_file": 12, "ls": 8, "cd": 8,
                 "copy": 12}, q=0.6),
    "C09": prof({"write_file": 24, "append_file": 12, "touch": 8, "get_version": 10, "set_policy": 4,
                 **SNAP}),
    "C10": prof({**HOOK, **STOR, "remove": 14, "write_file": 20, "append_file": 10, "set_policy": 2,
                 "mount_file": 2}, obs=(0.3, 0.1)),
    "C11": prof({**STOR, "mount_storage": 8, "remove": 12, "write_file": 20, "append_file": 10,
                 "set_policy": 2}),
    "C14": prof({**SNAP, **DYN, **STOR, "set_policy": 8, "node_policy": 5, "node_meta": 5, "cd": 8}),
    "C15": prof({"search": 20, "enable_index": 1, **STOR, **SNAP, "mount_file": 0.5}, q=0.9),
    "C19": prof({"move": 24, "copy": 30, "node_policy": 12, "node_meta": 12, "set_policy": 6, **DYN}),
    "C21": prof({**DYN, "mount_file": 10, "mount_directory": 14, "read_file": 14, "set_policy": 1,
                 "ls": 8}, obs=(0.25, 0.05)),
    "C07": prof({"ls": 20, "tree": 10, "search": 20, "set_policy": 14, "node_policy": 6, "node_meta": 8,
                 "enable_index": 0.5}, q=0.3),
    "C08": prof({"ls": 30, "tree": 8, "search": 8, "set_policy": 14, "node_policy": 6, "node_meta": 10}),
}


def random_history(rng, profile, consts, length):
    s = D.Session()
    g = Gen(rng, profile, consts)
    steps = []
    p_obs = rng.choice(profile["obs"])
    for i in range(length):
        op = g.op(s)
        obs = rng.random() < p_obs or i == length - 1
        qs = []
        if obs and profile["q"] and rng.random() < profile["q"]:
            for _ in range(2):
                qs.append([g.query(s), g.view(s) if rng.random() < 0.3 else None])
        steps.append([op, obs, qs])
        try:
            s.step(op, obs, [tuple(q) for q in qs])
        except D.Mismatch as mm:
            return steps, mm
    return steps, None


def shrink(steps, prop, budget=5.0):
    """Greedy removal of steps while the same property still fails."""
    t0 = time.time()

    def fails(st):
        try:
            D.replay(st)
        except D.Mismatch as mm:
            return prop in mm.props
        except Exception:
            return False
        return False
    if not fails(steps):
        return steps
    i = len(steps) - 2
    while i >= 0 and time.time() - t0 < budget:
        cand = steps[:i] + steps[i + 1:]
        if fails(cand):
            steps = cand
        i -= 1
    return steps


def search(prop, seed, seconds, consts, max_hist=10 ** 9):
    """Runs histories until a violation of prop or the budget ends."""
    profile = PROFILES[prop]
    rng = random.Random("%s-%s" % (prop, seed))
    t0 = time.time()
    n = ops = 0
    other = 0
    sigs = set()
    sample = None
    while time.time() - t0 < seconds and n < max_hist:
        length = rng.choice([4, 8, 12, 20, 30])
        steps, mm = random_history(rng, profile, consts, length)
        n += 1
        ops += len(steps)
        sigs.add(tuple(st[0][0] for st in steps))
        if sample is None and len(steps) <= 8:
            sample = [st[0] for st in steps]
        if mm is not None:
            if prop in mm.props:
                return {"histories": n, "ops": ops, "distinct": len(sigs), "sample": sample,
                        "fail": shrink(steps, prop), "msg": mm.msg, "other": other}
            other += 1
    return {"histories": n, "ops": ops, "distinct": len(sigs), "sample": sample, "fail": None,
            "other": other}
