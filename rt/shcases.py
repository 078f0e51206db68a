"""Shell-level bounded cross-checks (C06, C07, C15, C16, C17, C18)."""
import re
import subprocess

from . import diff as D
from . import gen as G
from . import model as M
from .diff import mk_policy, mk_view, mk_mview
import sandfs.shell as shell_mod
from sandfs.nodes import VirtualDirectory, VirtualFile
from sandfs.shell import CommandResult, SandboxShell
from sandfs.vfs import VirtualFileSystem

HOST = []


class _Done:
    stdout, stderr, returncode = "host-out", "", 0


def _no_host(cmd, *a, **k):
    """Stand-in for subprocess.run: only records what would have been started."""
    HOST.append([str(c) for c in cmd] if isinstance(cmd, (list, tuple)) else [str(cmd)])
    return _Done()


def guard_host():
    import os
    subprocess.run = _no_host
    subprocess.Popen = lambda cmd, *a, **k: _no_host(cmd)
    subprocess.call = lambda cmd, *a, **k: (_no_host(cmd), 0)[1]
    subprocess.check_output = lambda cmd, *a, **k: (_no_host(cmd), "")[1]
    subprocess.check_call = subprocess.call
    os.system = lambda cmd: (_no_host([cmd]), 0)[1]
    os.popen = lambda cmd, *a: _no_host([cmd])


# --------------------------------------------------------------------------- C06 / C07
def gen_visible(rng, consts):
    """A tree whose names and texts carry unique marks, a view, and a few commands."""
    r = rng
    nodes = []
    dirs = [""]
    strs = [s for s in consts[0] if s and "\x00" not in s]
    for i in range(r.choice([3, 5, 8, 10])):
        parent = r.choice(dirs)
        isdir = r.random() < .35
        name = ("D%dq" if isdir else "f%dq") % i
        if not isdir and r.random() < .3:
            name = "." + name
        path = parent + "/" + name
        pol = [r.random() < .75, r.random() < .85, r.random() < .1, r.choice(["public", "secret", "internal"]),
               r.sample(G.PRINCIPALS, r.choice([0, 0, 0, 1, 2]))]
        meta = {"team": r.choice(["red", "blue"])} if r.random() < .5 else {}
        text = ("MARK%dX common foo\nsecond line MARK%dX\n" % (i, i)) * r.choice([1, 1, 2, 6])
        if r.random() < .2:
            text += r.choice(strs or ["x"]) + "\n"
        nodes.append([path, isdir, pol, meta, text])
        if isdir:
            dirs.append(path)
    view = None
    if r.random() < .85:
        view = {}
        if r.random() < .6:
            view["c"] = r.sample(["public", "secret", "internal"], r.choice([0, 1, 1, 2]))
        if r.random() < .4:
            view["p"] = r.sample(G.PRINCIPALS, r.choice([0, 1, 2]))
        if r.random() < .3:
            view["x"] = [r.choice(nodes)[0] for _ in range(r.choice([1, 1, 2]))]
        if r.random() < .25:
            view["m"] = {"team": r.choice(["red", "blue"])}
    return {"nodes": nodes, "view": view, "index": r.random() < .3, "cwd": r.choice(dirs) or "/",
            "searchview": r.random() < .5,
            "cmds": [_command(r, nodes, dirs) for _ in range(r.choice([1, 2, 3]))]}


def _spell(r, cwd_dirs, path):
    x = r.random()
    if x < .6:
        return path or "/"
    if x < .75:
        parts = path.strip("/").split("/")
        return "/" + "/".join(q for p in parts for q in ([p] if r.random() < .7 else [".", p]))
    if x < .85:
        return (path or "") + r.choice(["/", "/.", "/../" + (path.rsplit("/", 1)[-1] or ".")])
    return "/nosuch/.." + (path or "/")


def _command(r, nodes, dirs):
    files = [n[0] for n in nodes if not n[1]] or ["/none"]
    anyp = [n[0] for n in nodes]
    f = lambda: _spell(r, dirs, r.choice(files))
    d = lambda: _spell(r, dirs, r.choice(dirs))
    a = lambda: _spell(r, dirs, r.choice(anyp))
    new = lambda: r.choice(dirs) + "/" + r.choice(["new", "copy", "zz"])
    q = lambda: r.choice(["MARK", "foo", "common", "second", "line"])
    sv = lambda: "/@search?q=%s%s" % (q(), r.choice(["", "&ignore_case=1", "&regex=1", "&path=" + d()]))
    c = r.choice(["cat", "cat", "head", "tail", "wc", "grep", "grepr", "rg", "search", "ls", "lsl", "lsn",
                  "tree", "treen", "find", "findn", "glob", "glob2", "globcat", "stat", "cd", "touch", "mkdir",
                  "rm", "rmr", "cp", "cpr", "mv", "write", "append", "redir_in", "redir_out", "redir_app",
                  "sv_cat", "sv_ls", "sv_tree", "sv_find", "sv_in", "sv_grep", "sv_head", "cat2", "pipe",
                  "bracket", "echoglob", "headglob", "catdash", "cat3", "ls2", "mvover", "cpover", "svnav"])
    g = {
        "cat": lambda: ["cat", f()], "head": lambda: ["head", r.choice(["-n 1", "-c 9", "-n 99", ""]), f()],
        "tail": lambda: ["tail", r.choice(["-n 1", "-c 9", ""]), f()], "wc": lambda: ["wc", f()],
        "grep": lambda: ["grep", r.choice(["", "-i", "-n", "-e"]), q(), f()],
        "grepr": lambda: ["grep", "-r", q(), d()], "rg": lambda: ["rg", r.choice(["", "-i", "-n"]), q(), d()],
        "search": lambda: ["search", r.choice(["", "-i", "--no-line-number"]), q(), a()],
        "ls": lambda: ["ls", a()], "lsl": lambda: ["ls", "-l", a()], "lsn": lambda: ["ls"],
        "ls2": lambda: ["ls", d(), d()],
        "tree": lambda: ["tree", d()], "treen": lambda: ["tree"],
        "find": lambda: ["find", d(), r.choice(["", "-type f", "-type d", "-name '*q'"])],
        "findn": lambda: ["find"],
        "glob": lambda: ["echo", r.choice(dirs) + "/*"], "glob2": lambda: ["echo", "*"],
        "echoglob": lambda: ["echo", r.choice(["/*/*", "/*q*", "?*", "/D*", ".*", "/*/.*", "*/*"])],
        "globcat": lambda: ["cat", r.choice(dirs) + "/*"], "headglob": lambda: ["head", r.choice(dirs) + "/f*"],
        "stat": lambda: ["stat", a()], "cd": lambda: ["cd", a()],
        "touch": lambda: ["touch", a()], "mkdir": lambda: ["mkdir", r.choice(["", "-p"]), r.choice([a(), new()])],
        "rm": lambda: ["rm", a()], "rmr": lambda: ["rm", "-r", a()],
        "cp": lambda: ["cp", f(), r.choice([new(), d(), a()])],
        "cpr": lambda: ["cp", "-r", a(), r.choice([new(), d()])],
        "mv": lambda: ["mv", a(), r.choice([new(), d(), a()])],
        "mvover": lambda: ["mv", f(), f()], "cpover": lambda: ["cp", f(), f()],
        "write": lambda: ["write", a(), "text"], "append": lambda: ["append", a(), "text"],
        "redir_in": lambda: [r.choice(["cat", "wc", "grep foo", "head"]), "<", f()],
        "redir_out": lambda: ["echo hi", ">", a()], "redir_app": lambda: ["echo hi", ">>", a()],
        "sv_cat": lambda: ["cat", sv() + r.choice(files)], "sv_ls": lambda: ["ls", sv()],
        "sv_tree": lambda: ["tree", sv()], "sv_find": lambda: ["find", sv()],
        "sv_in": lambda: ["cat", "<", sv() + r.choice(files)], "sv_grep": lambda: ["rg", q(), sv()],
        "sv_head": lambda: ["head", sv() + r.choice(files)],
        "svnav": lambda: [r.choice(["ls", "tree", "stat", "cat", "wc", "tail"]), sv() + r.choice(anyp)],
        "cat2": lambda: ["cat", f(), f()], "cat3": lambda: ["head", f(), f()],
        "pipe": lambda: ["cat", f(), "|", "grep foo"],
        "bracket": lambda: ["cat", re.sub("q$", "[q]", r.choice(files))],
        "catdash": lambda: ["cat", f(), "|", "cat", f(), "-"],
    }[c]()
    return " ".join(x for x in g if x)


class Tracked:
    pass


def _hidden(view, node, segs_node, named):
    """Hidden from the view; as a named operand, directories are not hidden by metadata filters."""
    m = M.MNode("d", "")
    for s in segs_node:
        m = M.MNode("f", s, m)
    m.policy = M.MPolicy(*D.pkey(node.policy))
    m.meta = dict(node.metadata)
    v = mk_mview(view)
    if v is None:
        return False
    if named and isinstance(node, VirtualDirectory) and v["metadata_filters"]:
        v = dict(v, metadata_filters=None)
    return not M.view_allows(v, m)


def run_visible(case):
    """Returns (props, msg) or None."""
    vfs = VirtualFileSystem()
    for path, isdir, pol, meta, text in case["nodes"]:
        if isdir:
            vfs.mkdir(path, parents=True, exist_ok=True)
        else:
            vfs.write_file(path, text)
    if case["index"]:
        vfs.enable_full_text_index()
    if case["searchview"]:
        vfs.enable_search_view()
    for path, isdir, pol, meta, text in case["nodes"]:
        n = vfs.get_node(path)
        n.metadata.update(meta)
    vfs.cd(case["cwd"])
    for path, isdir, pol, meta, text in case["nodes"]:
        vfs.set_policy(path, mk_policy(pol))
    sh = SandboxShell(vfs, view=mk_view(case["view"]))
    view = {} if case["view"] is None else case["view"]     # the shell's default is VisibilityView()
    for cmd in case["cmds"]:
        pre = {}
        for p, n in vfs.walk("/"):
            sp = str(p)
            if sp.startswith("/@search"):
                continue
            segs = M.normalize((), sp)
            pre[sp] = (n, isinstance(n, VirtualDirectory), _hidden(view, n, segs, False),
                       _hidden(view, n, segs, True), n.policy.readable,
                       n.read(vfs) if isinstance(n, VirtualFile) else None,
                       n.version, D.pkey(n.policy), dict(n.metadata), n.parent, n.name)
        cwd = M.normalize((), vfs.pwd())
        HOST.clear()
        res = sh.exec(cmd)
        out = res.stdout + "\n" + res.stderr
        # 1. texts
        for i in range(len(case["nodes"])):
            mark = "MARK%dX" % i
            if mark not in out or mark in cmd:
                continue
            holders = [v for v in pre.values() if v[5] is not None and mark in v[5]]
            if not holders:
                continue
            if all(not v[4] for v in holders):
                return {"C06"}, "%r disclosed the text of an unreadable file: %r" % (cmd, out[:120])
            if all(v[2] or not v[4] for v in holders):
                return {"C07"}, "%r disclosed the text of a hidden file: %r" % (cmd, out[:120])
        # 2. names
        for p, v in pre.items():
            if v[2] and v[10] and v[10] not in cmd:
                same = [w for w in pre.values() if w[10] == v[10] and not w[2]]
                if same:
                    continue
                if re.search(re.escape(v[10]) + r"(?!/\.?[A-Za-z])", res.stdout) and not (
                        cmd in ("pwd",) or vfs.pwd().find(v[10]) >= 0):
                    return {"C07"}, "%r listed hidden entry %s: %r" % (cmd, p, res.stdout[:160])
        # 3. named hidden operands are refused and untouched
        words = cmd.split()
        named = set()
        if "?q=" not in cmd and words[0] != "search":
            skip_text = words[0] in ("write", "append", "grep", "rg")
            for w in words[1:]:
                if any(ch in w for ch in "*?[]'|<>") or w.startswith("-"):
                    continue
                if w[0] not in "/.fD":
                    continue
                s = M.normalize(cwd, w)
                if M.show(s) in pre and (w.startswith("/")):
                    named.add(M.show(s))
        touched = any(pre[p][3] for p in named)
        if touched and res.exit_code == 0:
            return {"C07"}, "%r names a hidden path but exit code is 0, output %r" % (cmd, res.stdout[:100])
        ok_under = []
        if not touched and words[0] in ("rm", "mv"):
            ok_under = [p for p in named]
        post = {}
        for p, n in vfs.walk("/"):
            post[str(p)] = n
        for p, v in pre.items():
            if not v[3] and not (v[2] and not v[1]):
                continue
            if any(p.startswith(u.rstrip("/") + "/") for u in ok_under):
                continue
            n = post.get(p)
            if n is not v[0]:
                return {"C07"}, "%r replaced, moved or removed hidden %s" % (cmd, p)
            if v[5] is not None and (n.read(vfs) != v[5] or n.version != v[6]):
                return {"C07"}, "%r changed hidden %s" % (cmd, p)
            if D.pkey(n.policy) != v[7] or dict(n.metadata) != v[8]:
                return {"C07"}, "%r changed policy or metadata of hidden %s" % (cmd, p)
        # 4. unreadable sources and listings
        w0 = words[0]
        if res.exit_code == 0 and "?q=" not in cmd and not any(ch in cmd for ch in "*[]"):
            for p in named:
                v = pre[p]
                if v[4]:
                    continue
                if not v[1] and w0 in ("cat", "head", "tail", "wc") and ("|" not in cmd):
                    return {"C06"}, "%r succeeded on unreadable %s" % (cmd, p)
                if v[1] and w0 in ("ls", "cd"):
                    return {"C06"}, "%r succeeded on unreadable directory %s" % (cmd, p)
                if w0 == "cp" and M.show(M.normalize(cwd, [w for w in words[1:] if w[0] != "-"][0])) == p:
                    return {"C06"}, "%r copied unreadable %s" % (cmd, p)
        if HOST:
            return {"C16"}, "%r started a host process %r" % (cmd, HOST)
    return None


# --------------------------------------------------------------------------- C15 through the shell
def gen_grep(rng, consts):
    case = gen_visible(rng, consts)
    r = rng
    files = [n[0] for n in case["nodes"] if not n[1]]
    dirs = ["/"] + [n[0] for n in case["nodes"] if n[1]]
    pats = ["foo", "MARK", "common", "line", "COMMON", "MARK1X", "x", "second line", "ma.k"]
    pats += [s for s in r.sample(consts[0], min(3, len(consts[0]))) if re.fullmatch(r"[\w .]+", s)]
    case["queries"] = [[r.choice(["search", "grep", "rg", "vfs"]), r.choice(pats), r.random() < .4,
                        r.random() < .3, r.random() < .6, r.choice(dirs + files)] for _ in range(3)]
    return case


def run_grep(case):
    vfs = VirtualFileSystem()
    if case["index"]:
        vfs.enable_full_text_index()
    if case["searchview"]:
        vfs.enable_search_view()
    for path, isdir, pol, meta, text in case["nodes"]:
        if isdir:
            vfs.mkdir(path, parents=True, exist_ok=True)
        else:
            vfs.write_file(path, text)
    for path, isdir, pol, meta, text in case["nodes"]:
        vfs.get_node(path).metadata.update(meta)
        pol = list(pol)
        if isdir:
            pol[0] = True
        vfs.set_policy(path, mk_policy(pol))
    sh = SandboxShell(vfs, view=mk_view(case["view"]))
    for cmd, pat, icase, regex, numbers, where in case["queries"]:
        q = {"query": pat, "regex": regex, "ignore_case": icase, "path_prefix": where}
        if regex:
            try:
                re.compile(pat)
            except re.error:
                continue
        prefix = M.normalize((), where)
        target = vfs.get_node(where)
        view = case["view"]
        if view is None and cmd != "vfs":
            view = {}                                       # the shell's default is VisibilityView()
        exp = []
        for p, n in vfs.walk("/"):
            segs = M.normalize((), str(p))
            if not isinstance(n, VirtualFile) or not M.under(segs, prefix) or not n.policy.readable:
                continue
            if segs and segs[0] == "@search" or _hidden(view, n, segs, False):
                continue
            if cmd == "grep" and isinstance(target, VirtualDirectory) and len(segs) != len(prefix) + 1:
                continue
            for i, line in enumerate(n.read(vfs).splitlines(), 1):
                if M.matches(q, line):
                    exp.append((str(p), i, line))
        if cmd == "vfs":
            got = sorted((str(x.path), x.line_no, x.line_text)
                         for x in vfs.search(D.mk_query(q), view=mk_view(case["view"])))
            if got != sorted(exp):
                return {"C15"}, "search %r gave %r, expected %r" % (q, got[:5], sorted(exp)[:5])
            continue
        args = []
        if icase:
            args.append("-i")
        if regex:
            args.append("-e")
        if cmd == "search":
            if not numbers:
                args.append("--no-line-number")
        elif numbers:
            args.append("-n")
        line = " ".join([cmd] + args + ["'%s'" % pat, where])
        res = sh.exec(line)
        named = _hidden(view, target, prefix, True)
        if cmd != "search" and (named or not target.policy.readable):
            if res.exit_code == 0:
                return {"C07" if named else "C06"}, "%r on a hidden or unreadable path succeeded" % line
            continue
        if res.exit_code != 0:
            if not target.policy.readable:
                continue
            return {"C15"}, "%r failed: %r" % (line, res.stderr)
        lines = sorted("%s:%d:%s" % e if numbers else "%s:%s" % (e[0], e[2]) for e in exp)
        got = sorted(res.stdout.split("\n")) if res.stdout else []
        if got != lines:
            return {"C15"}, "%r printed %r, expected %r" % (line, got[:5], lines[:5])
    return None


# --------------------------------------------------------------------------- C16
BUILTINS = ("pwd cd ls cat touch mkdir rm cp mv tree write append echo printf wc grep rg search python "
            "python3 host bash sh help stat head tail find").split()


def gen_allow(rng, consts):
    r = rng
    pool = BUILTINS + ["mine", "other", "unknown", "nosuch", "git"]
    allowed = None
    if r.random() < .8:
        allowed = r.sample(pool, r.choice([0, 0, 1, 2, 4, 8]))
    lines = []
    for _ in range(r.choice([1, 2, 3])):
        cmds = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r.choice(pool) if r.random() < .5 or not allowed else r.choice(allowed)
            if r.random() < .15:        # a name that is not one of the commands but looks like one
                strs = [s for s in consts[0] if re.fullmatch(r"[\w./@+:-]{1,12}", s)] or ["/"]
                n = r.choice([r.choice(["/bin/", "./", "/", "x/", ".", "-", "@", "\\\\"]) + n, n.upper(), n + r.choice(["2", ".", "/", "-x", ".py"]),
                              r.choice(strs) + n, n + r.choice(strs), r.choice(strs), n[:-1] or n, n.capitalize()])
            arg = {"cat": "/f", "head": "/f", "wc": "/f", "grep": "x /f", "rg": "x", "search": "x",
                   "python": "-c 'print(1)'", "python3": "-c 'print(1)'", "host": "ls", "bash": "-c ls",
                   "sh": "-c ls", "write": "/w t", "append": "/f t", "touch": "/t", "mkdir": "/d",
                   "rm": "/t", "cp": "/f /g", "mv": "/f /h", "cd": "/", "stat": "/f", "tail": "/f",
                   "ls": r.choice(["", "/", "-la", "--color", "-l"]), "printf": "x"}.get(n, "")
            x = r.random()
            spelled = n
            if x < .08:
                spelled = "'" + n + "'"
            elif x < .14:
                spelled = "$CMD_" + n
            elif x < .18:
                spelled = "A=1 " + n
            cmds.append((spelled + " " + arg).strip())
        lines.append(" | ".join(cmds))
    return {"allowed": allowed, "script": "\n".join(lines), "fallback": r.random() < .4,
            "late": r.random() < .3, "shape": r.choice(["list", "set", "gen", "tuple"]),
            "regname": r.choice(["mine", "other", "git"])}


def run_allow(case):
    vfs = VirtualFileSystem()
    vfs.write_file("/f", "x text\n")
    allowed = case["allowed"]
    given = allowed
    if allowed is not None:
        given = {"list": list, "set": set, "tuple": tuple, "gen": lambda x: (y for y in x)}[case["shape"]](allowed)
    kw = {}
    if case["fallback"]:
        kw["host_fallback"] = True
    sh = SandboxShell(vfs, allowed_commands=given, env={"CMD_" + n: n for n in BUILTINS + [
        "mine", "other", "unknown", "nosuch", "git"]}, **kw)
    ran = []

    def wrap(name, handler):
        def h(args, ctx=None):
            ran.append(name)
            HOST_BEFORE[0] = len(HOST)
            return handler(args, ctx)
        return h
    HOST_BEFORE = [0]
    docs = dict(sh.command_docs)
    for n, h in list(sh.commands.items()):
        sh.register_command(n, wrap(n, h), description=docs.get(n, ""))
    sh.register_command(case["regname"], lambda args: ran.append(case["regname"]) or "mine-out")
    HOST.clear()
    for line in case["script"].split("\n"):
        ran.clear()
        HOST.clear()
        known = set(sh.commands)
        res = sh.exec(line)
        names = []
        for part in line.split(" | "):
            t = [w for w in part.split() if not re.match(r"^\w+=", w)][0].strip("'")
            names.append(t[5:] if t.startswith("$CMD_") else t)
        for n in ran:
            if allowed is not None and n not in allowed:
                return {"C16"}, "allow-list %r but %r ran in %r" % (allowed, n, line)
        for h in HOST:
            head = h[0]
            src = [n for n in names if n == head or n in ("host", "bash", "sh", "ls")]
            if head not in known and not ("host" in ran or "bash" in ran or "sh" in ran):
                if not case["fallback"]:
                    return {"C16"}, "host process %r started without fallback by %r" % (h, line)
                if allowed is not None and head not in allowed:
                    return {"C16"}, "host process %r started although not on the allow-list" % (h,)
            if not case["fallback"] and not set(ran) & {"host", "bash", "sh"}:
                return {"C16"}, "host process %r started without fallback by %r" % (h, line)
        if allowed is not None:
            first_bad = next((n for n in names if n not in allowed), None)
            if first_bad is not None and res.exit_code == 0:
                return {"C16"}, "%r with allow-list %r gave exit code 0" % (line, allowed)
            if first_bad is not None and not res.stderr:
                return {"C16"}, "%r with allow-list %r gave no error" % (line, allowed)
        unknown = [n for n in names if n not in known]
        if unknown and not case["fallback"] and res.exit_code == 0:
            return {"C16"}, "unknown command in %r gave exit code 0" % line
    return None


# --------------------------------------------------------------------------- C17
def gen_limit(rng, consts):
    r = rng
    units = ["a", "é", "€", "😀", "ab\n", "\ud800", "x y ", "ü\n"]
    text = "".join(r.choice(units) * r.choice([1, 1, 2, 5, 20]) for _ in range(r.choice([1, 2, 3])))
    kind = r.choice(["out", "err", "both", "str", "cat", "fail", "raise", "builtin", "pipe", "script",
                     "ls", "tree", "redirerr", "parse", "unknown", "python", "assign", "warnpipe", "exc"])
    size = len(text.encode("utf-8", "surrogatepass"))
    nchars = len(text)
    limit = r.choice([size, size - 1, size + 1, nchars, nchars - 1, 0, 1, 2 * size, 2 * size - 1, 10, 40, 100,
                      r.choice(consts[1] or [1]), 2 * nchars])
    return {"text": text, "kind": kind, "limit": max(0, limit), "text2": r.choice(units) * r.choice([1, 3, 9])}


def _limit_shell(case, limit):
    vfs = VirtualFileSystem()
    vfs.write_file("/t", case["text"])
    vfs.write_file("/u", case["text2"])
    vfs.write_file("/dir/" + "n" * 30, "z")
    vfs.mkdir("/dir/sub")
    sh = SandboxShell(vfs, max_output_bytes=limit)
    t, u = case["text"], case["text2"]
    R = lambda **k: CommandResult(**k)
    sh.register_command("out", lambda a: R(stdout=t))
    sh.register_command("err", lambda a: R(stderr=t))
    sh.register_command("both", lambda a: R(stdout=t, stderr=u))
    sh.register_command("str", lambda a: t)
    sh.register_command("fail", lambda a: R(stdout=t, stderr=u, exit_code=3))

    def rz(a):
        raise ValueError(t)
    sh.register_command("raise", rz)

    def rz2(a):
        from sandfs.exceptions import InvalidOperation
        raise InvalidOperation(t)
    sh.register_command("exc", rz2)
    return sh


CMD_OF = {"out": "out", "err": "err", "both": "both", "str": "str", "cat": "cat /t", "fail": "fail",
          "raise": "raise", "exc": "exc", "builtin": "help", "pipe": "both | cat", "warnpipe": "err | err | err",
          "script": "both\nout\nstr", "ls": "ls -l /dir", "tree": "tree /", "redirerr": "out > /dir/sub",
          "parse": "cat 'unclosed", "unknown": "x" * 50, "python": "python -c 'print(\"q\"*30)'",
          "assign": "A=1"}


def run_limit(case):
    cmd = CMD_OF[case["kind"]]
    lim = case["limit"]
    res = _limit_shell(case, lim).exec(cmd)
    total = len((res.stdout or "").encode("utf-8", "surrogatepass")) + len(
        (res.stderr or "").encode("utf-8", "surrogatepass"))
    ref = _limit_shell(dict(case, text="x" * (lim + 50)), lim).exec("out")
    if ref.stdout != "" or ref.exit_code == 0 or str(lim) not in ref.stderr or len(ref.stderr) > 60:
        return {"C17"}, "limit %d: overflowing result is %r" % (lim, ref)
    message = (res.stdout, res.stderr, res.exit_code) == (ref.stdout, ref.stderr, ref.exit_code)
    if total > lim and not message:
        return {"C17"}, "limit %d but %r delivered %d bytes: %r" % (lim, cmd, total, res)
    free = _limit_shell(case, None).exec(cmd)
    ft = len(free.stdout.encode("utf-8", "surrogatepass")) + len(
        free.stderr.encode("utf-8", "surrogatepass"))
    if "\n" not in cmd and "|" not in cmd and ">" not in cmd and "<" not in cmd:
        if ft <= lim and (res.stdout, res.stderr, res.exit_code) != (free.stdout, free.stderr, free.exit_code):
            return {"C17"}, "limit %d: %r of %d bytes was not delivered: %r" % (lim, cmd, ft, res)
        if ft > lim and not message:
            return {"C17"}, "limit %d: %r of %d bytes gave %r" % (lim, cmd, ft, res)
    return None


# --------------------------------------------------------------------------- C18
def gen_pipeline(rng, consts):
    r = rng
    lines = []
    files = ["/a", "/b", "/d/c", "/new", "/d/new", "/x/y/new"]
    for _ in range(r.choice([1, 1, 2, 3])):
        stages = []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            c = r.choices(["emit", "up", "tagstr", "none", "warn", "one", "fail", "boom", "sbox", "emitctx"],
                          [6, 6, 3, 1, 2, 2, 1, .6, .6, 2])[0]
            st = {"c": c, "arg": r.choice(["t1", "Hello", "zz", "$V", "${V}x", "$NOPE", "q$V"]),
                  "in": None, "out": None, "app": False, "assign": None}
            if r.random() < .2:
                st["in"] = r.choice(files[:4] + ["$F", "/d", "/nosuch"] if r.random() < .4 else files[:3])
            if r.random() < .25:
                st["out"] = r.choice(files + (["/d", "/a/x", "/ro", "/ao"] if r.random() < .4 else ["$F"]))
                st["app"] = r.random() < .5
            if r.random() < .12:
                st["assign"] = "V=local"
            stages.append(st)
        if r.random() < .1:
            lines.append({"assign": ["V", r.choice(["newv", "n$V"])]})
        else:
            lines.append({"stages": stages})
    return {"lines": lines, "blank": r.random() < .3}


def _text(line):
    if "assign" in line:
        return "%s=%s" % tuple(line["assign"])
    out = []
    for st in line["stages"]:
        s = (st["assign"] + " " if st["assign"] else "") + st["c"] + " " + st["arg"]
        if st["in"]:
            s += " < " + st["in"]
        if st["out"]:
            s += (" >> " if st["app"] else " > ") + st["out"]
        out.append(s)
    return " | ".join(out)


def _expand(s, env):
    s = re.sub(r"\$\{([^}]+)\}|\$(\w+)", lambda m: env.get(m.group(1) or m.group(2), ""), s)
    return s


def run_pipeline(case):
    from sandfs.exceptions import InvalidOperation
    vfs = VirtualFileSystem()
    init = {"/a": "alpha\n", "/b": "beta", "/d/c": "gamma\n", "/ro": "ro", "/ao": "ao"}
    for k, v in init.items():
        vfs.write_file(k, v)
    vfs.set_policy("/ro", mk_policy([True, False, False, "public", []]))
    vfs.set_policy("/ao", mk_policy([True, True, True, "public", []]))
    sh = SandboxShell(vfs, env={"V": "val", "F": "/b"})
    calls = []

    def stage(c):
        def one(args):
            calls.append((c, list(args), None))
            return "one:" + args[0]

        def boom(args, ctx):
            calls.append((c, list(args), ctx.stdin))
            raise KeyError("boom")

        def sbox(args, ctx):
            calls.append((c, list(args), ctx.stdin))
            raise InvalidOperation("refused here")

        def two(args, ctx):
            calls.append((c, list(args), ctx.stdin))
            a = args[0] if args else ""
            if c == "emit":
                return CommandResult(stdout=a)
            if c == "emitctx":
                return CommandResult(stdout=ctx.env.get("V", "") + ctx.cwd)
            if c == "up":
                return CommandResult(stdout=ctx.stdin.upper() + a)
            if c == "tagstr":
                return "<" + ctx.stdin + ">"
            if c == "none":
                return None
            if c == "warn":
                return CommandResult(stdout=ctx.stdin, stderr="w:" + a)
            if c == "fail":
                return CommandResult(stdout="partial", stderr="f:" + a, exit_code=7)
        return {"one": one, "boom": boom, "sbox": sbox}.get(c, two)
    for c in ("emit", "up", "tagstr", "none", "warn", "one", "fail", "boom", "sbox", "emitctx"):
        sh.register_command(c, stage(c))
    files = dict(init)
    env0 = {"V": "val", "F": "/b"}
    exp_calls = []
    final = ("", "", 0)
    script = ("\n\n" if case["blank"] else "\n").join(_text(x) for x in case["lines"])
    if case["blank"]:
        script = "  \n" + script + "\n   \n"
    dirs = {"/", "/d"}
    for line in case["lines"]:
        if "assign" in line:
            env0[line["assign"][0]] = _expand(line["assign"][1], env0)
            final = ("", "", 0)
            continue
        pipe, errs, code, stop = "", [], 0, None
        for st in line["stages"]:
            env = dict(env0)
            if st["assign"]:
                env["V"] = "local"
            arg = _expand(st["arg"], env)
            stdin = pipe
            if st["in"]:
                p = _expand(st["in"], env)
                if p not in files:
                    stop = ("error",)
                    break
                stdin = files[p]
            exp_calls.append((st["c"], [arg], None if st["c"] == "one" else stdin))
            c = st["c"]
            o, e, code = "", "", 0
            if c == "emit":
                o = arg
            elif c == "emitctx":
                o = env["V"] + "/"
            elif c == "up":
                o = stdin.upper() + arg
            elif c == "tagstr":
                o = "<" + stdin + ">"
            elif c == "warn":
                o, e = stdin, "w:" + arg
            elif c == "one":
                o = "one:" + arg
            elif c == "fail":
                o, e, code = "partial", "f:" + arg, 7
            elif c in ("boom", "sbox"):
                code = 1
            errs.append(e)
            if code:
                stop = ("fail", o, "".join(errs), code) if c == "fail" else ("error",)
                break
            if st["out"]:
                p = _expand(st["out"], env)
                bad = p in dirs or p == "/ro" or (p == "/ao" and not st["app"]) or any(
                    p.startswith(f + "/") for f in files)
                if bad:
                    stop = ("error",)
                    break
                files[p] = (files.get(p, "") if st["app"] else "") + o
                q = p
                while q.rfind("/") > 0:
                    q = q[:q.rfind("/")]
                    dirs.add(q)
                o = ""
            pipe = o
        if stop:
            final = stop
            break
        final = (pipe, "".join(errs), 0)
    try:
        res = sh.exec(script)
    except BaseException as exc:
        return {"C18"}, "exec raised %r on %r" % (exc, script)
    if calls != exp_calls:
        return {"C18"}, "%r ran %r, expected %r" % (script, calls, exp_calls)
    got_files = {str(p): n.read(vfs) for p, n in vfs.walk("/") if isinstance(n, VirtualFile)}
    if got_files != files:
        return {"C18"}, "%r left files %r, expected %r" % (script, got_files, files)
    if final[0] == "error":
        if res.exit_code == 0 or not res.stderr:
            return {"C18"}, "%r should fail with an explanation, gave %r" % (script, res)
    elif final[0] == "fail":
        if (res.stdout, res.stderr, res.exit_code) != final[1:]:
            return {"C18"}, "%r gave %r, expected %r" % (script, res, final[1:])
    elif (res.stdout, res.stderr, res.exit_code) != final:
        return {"C18"}, "%r gave %r, expected %r" % (script, res, final)
    return None


def gen_soup(rng, consts):
    r = rng
    toks = ["|", "<", ">", ">>", "'", '"', "\\", "$", "${", "}", "$X", "${}", "*", "?", "[", "]", "[a-", "&", ";",
            "(", ")", "=", "A=1", "-n", "-c", "-r", "-i", "-e", "--", "-", "-name", "-type", "f", "d", "-p", "-5",
            "99999999999999999999", "x", "/f", "/d", "/nosuch", "..", "/..", "~", "#", "\t", "//", ".", "", "\x00",
            "é", "/@search?q=x", "/@search?q=(&regex=1", "(", "*(", "%", "%s", "%d", "%(x)s", "/f/x", "\\n", "\u2028",
            "\x85", "|&", "||", "&&", "--text", "--append", "-l", "/d/*", "[[]"]
    toks += r.sample(consts[0], min(5, len(consts[0])))
    n = r.choice([1, 2, 3, 4, 6])
    names = [b for b in BUILTINS if b not in ("python", "python3")] + ["nosuch"]
    parts = []
    for _ in range(r.choice([1, 1, 2])):
        parts.append(" ".join([r.choice(names) if r.random() < .85 else r.choice(toks)] +
                              [r.choice(toks) for _ in range(n)]))
    return {"line": r.choice([" | ", "\n", " "]).join(parts), "searchview": r.random() < .4,
            "fallback": r.random() < .2, "limit": r.choice([None, None, None, 5])}


def run_soup(case):
    vfs = VirtualFileSystem()
    vfs.write_file("/f", "x text\nfoo\n")
    vfs.write_file("/d/g", "x\n")
    if case["searchview"]:
        vfs.enable_search_view()
    sh = SandboxShell(vfs, host_fallback=case["fallback"], max_output_bytes=case["limit"])
    try:
        res = sh.exec(case["line"])
    except Exception as exc:
        return {"C18"}, "exec(%r) raised %r" % (case["line"], exc)
    if not isinstance(res, CommandResult) or not isinstance(res.stdout, str) or not isinstance(
            res.stderr, str) or not isinstance(res.exit_code, int):
        return {"C18"}, "exec(%r) returned %r" % (case["line"], res)
    if res.exit_code != 0 and not res.stderr and not HOST:
        return {"C18"}, "exec(%r) failed without explanation" % case["line"]
    HOST.clear()
    if case["limit"] is not None:
        total = len(res.stdout.encode("utf-8", "surrogatepass")) + len(res.stderr.encode("utf-8", "surrogatepass"))
        if total > case["limit"] and not (res.stdout == "" and res.exit_code != 0 and str(case["limit"]) in res.stderr):
            return {"C17"}, "limit %d: exec(%r) delivered %r" % (case["limit"], case["line"], res)
    return None
