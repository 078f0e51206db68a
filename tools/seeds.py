"""Planted bugs: each breaks a property and passes the existing tests."""
V, S, N, P, A, I = "sandfs/vfs.py", "sandfs/shell.py", "sandfs/nodes.py", "sandfs/policies.py", "sandfs/adapters.py", "sandfs/search.py"
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "what_it_breaks": breaks, "edits": edits, "demo": demo})


seed("s01", "C08", "a view prefix that is a string prefix, but not a component prefix, of another directory's name",
     "A view limited to /team also allows /team-secret, because the prefix is compared as text",
     [(P, "                node_path.is_relative_to(prefix) or prefix.is_relative_to(node_path)\n",
       "                str(node_path).startswith(str(prefix)) or prefix.is_relative_to(node_path)\n")],
     '''
from sandfs import VirtualFileSystem, VisibilityView
fs = VirtualFileSystem()
fs.write_file("/team/a", "x"); fs.write_file("/team-secret/b", "y")
v = VisibilityView(path_prefixes=["/team"])
assert v.allows_node(fs.get_node("/team/a"))
assert not v.allows_node(fs.get_node("/team-secret/b"))
''')

seed("s02", "C05", "a recursive removal of an entry of a read-only directory",
     "rm -r takes an entry out of a read-only directory, the containing directory being checked only without -r",
     [(V, "        self._ensure_write_allowed(node)\n        self._ensure_write_allowed(parent)\n        if isinstance(node, VirtualDirectory) and node.children and not recursive:\n",
       "        self._ensure_write_allowed(node)\n        if not recursive:\n            self._ensure_write_allowed(parent)\n        if isinstance(node, VirtualDirectory) and node.children and not recursive:\n")],
     '''
from sandfs import VirtualFileSystem, NodePolicy
fs = VirtualFileSystem()
fs.write_file("/ro/d/f", "x")
fs.set_policy("/ro", NodePolicy(writable=False))
try:
    fs.remove("/ro/d", recursive=True)
except Exception:
    pass
assert fs.exists("/ro/d"), "removed from a read-only directory"
''')

seed("s03", "C11", "nested storage mounts where the outer one was mounted last",
     "With nested storage mounts a write goes to the mount registered last rather than the innermost one",
     [(V, "        return max(matches, key=lambda item: len(item[0].parts))\n", "        return matches[-1]\n")],
     '''
from sandfs import VirtualFileSystem
from sandfs.adapters import MemoryStorageAdapter
fs = VirtualFileSystem()
inner = MemoryStorageAdapter(); outer = MemoryStorageAdapter()
fs.mount_storage("/data", outer)
fs.mount_storage("/data/in", inner)
fs._storage_mounts = dict(fs._storage_mounts)
outer2 = MemoryStorageAdapter()
fs2 = VirtualFileSystem()
fs2.mount_storage("/m/in", inner)
fs2.mount_storage("/m", outer2)
fs2.mkdir("/m/in", parents=True, exist_ok=True)
fs2.write_file("/m/in/a.txt", "hello")
assert inner.list()["a.txt"].content == "hello", (inner.list(), outer2.list())
assert not outer2.list()
''')

seed("s04", "C10", "an append to a file that exists but was never written (touched)",
     "The first append to a touched file is reported as 'update' instead of 'create'",
     [(V, '        event_type = "create" if previous_version == 0 else "update"\n',
       '        event_type = "create" if previous_version == 0 and not append else "update"\n')],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem(); ev = []
fs.register_path_hook("/", lambda e: ev.append((e.path, e.event, e.content)))
fs.touch("/log"); fs.append_file("/log", "x")
assert ev == [("/log", "create", "x")], ev
''')

seed("s05", "C09", "a write with expected version zero to a file that was already written",
     "expected_version=0 is treated as 'no expectation', so a create-only write overwrites an existing file",
     [(V, "        if expected_version is None:\n            return\n        if node.version", "        if not expected_version:\n            return\n        if node.version")],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem()
fs.write_file("/f", "one")
try:
    fs.write_file("/f", "two", expected_version=0)
except Exception:
    pass
assert fs.read_file("/f") == "one"
''')

seed("s06", "C12", "changing an entry that list() handed out",
     "MemoryStorageAdapter.list hands out the stored entries themselves",
     [(A, "        return {\n            path: StorageEntry(content=entry.content, version=entry.version)\n            for path, entry in self._entries.items()\n        }\n",
       "        return dict(self._entries)\n")],
     '''
from sandfs.adapters import MemoryStorageAdapter
a = MemoryStorageAdapter({"x": "1"})
a.list()["x"].content = "changed"
assert a.read("x").content == "1"
''')

seed("s07", "C13", "a sibling directory of the root whose name starts with the root's name",
     "The containment test of the host adapter compares path text, so ../root-other/x is accepted",
     [(A, "        if not target.is_relative_to(self._root_resolved):\n            raise ValueError", "        if not str(target).startswith(str(self._root_resolved)):\n            raise ValueError")],
     '''
import tempfile, pathlib
from sandfs.adapters import FileSystemAdapter
with tempfile.TemporaryDirectory() as t:
    t = pathlib.Path(t)
    (t / "root-other").mkdir(); (t / "root-other" / "x").write_text("secret")
    a = FileSystemAdapter(t / "root")
    try:
        got = a.read("../root-other/x")
    except ValueError:
        got = None
    assert got is None
''')

seed("s08", "C14", "a policy object changed in place after a restore, then a second restore of the same snapshot",
     "Restored files share their policy object with the snapshot, so later changes alter the snapshot",
     [(V, "                file_node.policy = self._clone_policy(node_state.policy)\n", "                file_node.policy = node_state.policy\n")],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem()
fs.write_file("/f", "x")
s = fs.snapshot()
fs.restore(s)
fs.get_policy("/f").writable = False
fs.restore(s)
assert fs.get_policy("/f").writable
''')

seed("s09", "C15", "moving a directory while the full-text index is enabled",
     "After a directory move the index keeps the old paths, so its files are no longer found",
     [(V, "            self._remove_index_entry(original_path)\n            self._index_file(node)\n        else:\n            self._rebuild_index()\n",
       "            self._index_file(node)\n        self._remove_index_entry(original_path)\n")],
     '''
from sandfs import VirtualFileSystem
from sandfs.search import SearchQuery
fs = VirtualFileSystem()
fs.write_file("/d/f", "needle")
fs.enable_full_text_index()
fs.move("/d", "/e")
assert [str(r.path) for r in fs.search(SearchQuery("needle"))] == ["/e/f"]
''')

seed("s10", "C16", "host fallback together with an allow-list, and a command named by a path",
     "A command named by a path goes to the host before the allow-list is consulted",
     [(S, "        handler = self.commands.get(name)\n",
       "        handler = None if name.startswith(\"/\") else self.commands.get(name)\n        if handler is None and self.host_fallback and name.startswith(\"/\"):\n            return self._run_host_process([name, *args], None, stdin=ctx.stdin, env=ctx.env)\n")],
     '''
from unittest import mock
from sandfs import VirtualFileSystem, SandboxShell
sh = SandboxShell(VirtualFileSystem(), allowed_commands=["ls"], host_fallback=True)
ran = []
with mock.patch("subprocess.run", side_effect=lambda *a, **k: ran.append(a) or (_ for _ in ()).throw(OSError("no"))):
    r = sh.exec("/bin/uname -a")
assert not ran and r.exit_code != 0
''')

seed("s12", "C19", "changing a principal set in place after a copy",
     "A copy shares its principal set with the original",
     [(V, "            principals=set(policy.principals),\n", "            principals=policy.principals,\n")],
     '''
from sandfs import VirtualFileSystem, NodePolicy
fs = VirtualFileSystem()
fs.write_file("/a", "x"); fs.set_policy("/a", NodePolicy(principals={"bob"}))
fs.copy("/a", "/b")
fs.get_policy("/b").principals.add("eve")
assert fs.get_policy("/a").principals == {"bob"}
''')

seed("s13", "C20", "a snippet that changes its __builtins__, then another snippet",
     "All snippets share one builtins dictionary, so an earlier snippet changes what later ones get",
     [("sandfs/pyexec.py", '        env["__builtins__"] = dict(self._builtins)\n', '        env["__builtins__"] = self._builtins\n')],
     '''
from sandfs import VirtualFileSystem
from sandfs.pyexec import PythonExecutor
ex = PythonExecutor(VirtualFileSystem())
ex.run("__builtins__['len'] = lambda x: 42")
assert ex.run("n = len([])").globals["n"] == 0
''')

seed("s14", "C21", "a directory loader that fails the first time",
     "A directory whose loader failed counts as loaded and stays empty",
     [(N, "        ctx = self.build_context(vfs)\n        snapshot = self.loader(ctx)\n        for name, provided in snapshot.items():\n",
       "        self._loaded = True\n        ctx = self.build_context(vfs)\n        snapshot = self.loader(ctx)\n        for name, provided in snapshot.items():\n"),
      (N, "            self.add_child(instantiate_provided_node(name, provided, parent=self))\n        self._loaded = True\n",
       "            self.add_child(instantiate_provided_node(name, provided, parent=self))\n")],
     '''
from sandfs import VirtualFileSystem
from sandfs.providers import ProvidedNode
fs = VirtualFileSystem(); calls = []
def load(ctx):
    calls.append(1)
    if len(calls) == 1:
        raise RuntimeError("down")
    return {"f": ProvidedNode.file(content="x")}
fs.mount_directory("/d", load)
try:
    fs.ls("/d")
except Exception:
    pass
assert fs.read_file("/d/f") == "x"
''')

seed("s15", "C01", "an absolute path beginning with two slashes",
     "A fast path returns absolute paths without '..' unnormalised, so '//a' names another path than '/a'",
     [(V, "            raw = PurePosixPath(path)\n            if not raw.is_absolute():\n", "            raw = PurePosixPath(path)\n            if raw.is_absolute() and \"..\" not in raw.parts:\n                return raw\n            if not raw.is_absolute():\n")],
     '''
from sandfs import VirtualFileSystem
from sandfs.exceptions import InvalidOperation
fs = VirtualFileSystem()
fs.write_file("/a/b", "x")
calls = []
fs.register_write_hook("//a", lambda e: calls.append(e.path))
fs.write_file("/a/b", "y")
assert calls == ["/a/b"], calls
try:
    fs.remove("//")
except InvalidOperation as e:
    assert "root" in str(e) and "without parent" not in str(e), e
''')

seed("s16", "C03", "writing the empty string over existing text",
     "Overwriting a file with empty text leaves the old text in place",
     [(N, "            self._content = data\n", "            self._content = data or self._content\n")],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem()
fs.write_file("/f", "old"); fs.write_file("/f", "")
assert fs.read_file("/f") == ""
''')

seed("s18", "C07", "mv onto a path hidden from the shell's view",
     "mv checks only its source against the view, so a visible file can be moved into a hidden directory",
     [(S, "        self._ensure_visible_path(source)\n        self._ensure_visible_path(dest)\n        try:\n            self.vfs.move(source, dest)\n",
       "        self._ensure_visible_path(source)\n        try:\n            self.vfs.move(source, dest)\n")],
     '''
from sandfs import VirtualFileSystem, SandboxShell, VisibilityView
fs = VirtualFileSystem()
fs.write_file("/pub/a", "x"); fs.mkdir("/priv")
sh = SandboxShell(fs, view=VisibilityView(path_prefixes=["/pub"]))
sh.exec("mv /pub/a /priv")
assert fs.exists("/pub/a") and not fs.exists("/priv/a")
''')

seed("s19", "C18", "a failing command in the middle of a pipeline",
     "A pipeline goes on after a command that fails with exit code 1 and some output",
     [(S, "            stderr_chunks.append(result.stderr)\n            if result.exit_code != 0:\n", "            stderr_chunks.append(result.stderr)\n            if result.exit_code != 0 and not (result.stdout and spec is not pipeline.commands[-1]):\n")],
     '''
from sandfs import VirtualFileSystem, SandboxShell
from sandfs.shell import CommandResult
fs = VirtualFileSystem(); sh = SandboxShell(fs); ran = []
sh.register_command("bad", lambda a, c: CommandResult(stdout="partial", exit_code=1))
sh.register_command("next", lambda a, c: ran.append(1) or CommandResult())
assert sh.exec("bad | next").exit_code != 0 and not ran
''')

seed("s20", "C04", "removing a stored file whose directory is read-only",
     "A refused removal has already deleted the entry from the mounted storage",
     [(V, "        self._ensure_write_allowed(node)\n        self._ensure_write_allowed(parent)\n        if isinstance(node, VirtualDirectory) and node.children and not recursive:\n",
       "        self._ensure_write_allowed(node)\n        if isinstance(node, VirtualFile):\n            self._delete_storage_entry(node)\n        self._ensure_write_allowed(parent)\n        if isinstance(node, VirtualDirectory) and node.children and not recursive:\n"),
      (V, "        if isinstance(node, VirtualFile):\n            self._delete_storage_entry(node)\n            self._remove_index_entry(node.path())\n", "        if isinstance(node, VirtualFile):\n            self._remove_index_entry(node.path())\n")],
     '''
from sandfs import VirtualFileSystem, NodePolicy
from sandfs.adapters import MemoryStorageAdapter
fs = VirtualFileSystem(); a = MemoryStorageAdapter({"f": "x"})
fs.mount_storage("/m", a); fs.set_policy("/m", NodePolicy(writable=False))
try:
    fs.remove("/m/f")
except Exception:
    pass
assert fs.read_file("/m/f") == "x" and "f" in a.list()
''')

seed("s21", "C02", "moving a directory into a sub-directory of itself through a name collision",
     "A directory renamed onto a new name below one of its own descendants is accepted when named relative to it",
     [(V, "                dest_parent_path.relative_to(node_path)\n                raise InvalidOperation(\"Cannot move a directory inside itself\")\n            except ValueError:\n                pass\n",
       "                rel = dest_parent_path.relative_to(node_path)\n                if len(rel.parts) < 2:\n                    raise InvalidOperation(\"Cannot move a directory inside itself\")\n            except ValueError:\n                pass\n")],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem()
fs.write_file("/a/b/c/f", "x")
try:
    fs.move("/a", "/a/b/c")
except Exception:
    pass
assert fs.exists("/a/b/c/f")
''')

seed("s22", "C17", "an output whose UTF-8 size exceeds the limit because stdout and stderr add up",
     "The output limit is applied to each stream separately",
     [(S, "        if total <= self.max_output_bytes:\n            return result\n", "        if max(total - len(result.stderr.encode()), total - len(result.stdout.encode())) <= self.max_output_bytes:\n            return result\n")],
     '''
from sandfs import VirtualFileSystem, SandboxShell
from sandfs.shell import CommandResult
sh = SandboxShell(VirtualFileSystem(), max_output_bytes=40)
sh.register_command("both", lambda a, c: CommandResult(stdout="o" * 30, stderr="e" * 30))
r = sh.exec("both")
assert len(r.stdout) + len(r.stderr) <= 40 or r.stdout == "" and r.exit_code != 0
''')

seed("s23", "C06", "cat of several files, one of them unreadable",
     "cat prints the text of an unreadable file when it is given after another file",
     [(S, "                self._ensure_visible_path(resolved)\n                blobs.append(self.vfs.read_file(resolved))\n        return CommandResult(stdout=\"\".join(blobs))\n",
       "                self._ensure_visible_path(resolved)\n                blobs.append(self.vfs._ensure_file(resolved).read(self.vfs) if blobs else self.vfs.read_file(resolved))\n        return CommandResult(stdout=\"\".join(blobs))\n")],
     '''
from sandfs import VirtualFileSystem, SandboxShell, NodePolicy
fs = VirtualFileSystem()
fs.write_file("/a", "aa"); fs.write_file("/b", "secret"); fs.set_policy("/b", NodePolicy(readable=False))
assert "secret" not in SandboxShell(fs).exec("cat /a /b").stdout
''')

seed("s24", "C14", "a snapshot of a tree with a provider-backed file",
     "A snapshot takes the stored text of a dynamic file rather than the text readers see",
     [(V, "            if isinstance(node, VirtualFile):\n                content = node.read(self)\n            else:\n                content = None\n",
       "            if isinstance(node, VirtualFile):\n                content = node._content\n            else:\n                content = None\n")],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem()
fs.mount_file("/d", lambda ctx: "live")
s = fs.snapshot(); fs.restore(s)
assert fs.read_file("/d") == "live"
''')

seed("s25", "C10", "removal of a file that was touched but never written",
     "Removing a file with version 0 sends no 'delete' event",
     [(V, "            self._remove_index_entry(node.path())\n            self._emit_path_event(node.path(), \"delete\", None)\n",
       "            self._remove_index_entry(node.path())\n            if node.version:\n                self._emit_path_event(node.path(), \"delete\", None)\n")],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem(); seen = []
fs.register_path_hook("/", seen.append)
fs.touch("/t"); fs.remove("/t")
assert [e.event for e in seen] == ["delete"]
''')

seed("s26", "C09", "an append of empty text to a file with a version expectation later on",
     "Appending empty text does not raise the version",
     [(V, "        node.version += 1\n        node.modified_at = time.time()\n", "        node.version += 1 if data or not append else 0\n        node.modified_at = time.time()\n")],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem()
v = fs.write_file("/f", "x").version
assert fs.append_file("/f", "").version == v + 1
''')

seed("s27", "C19", "a directory copied with its contents, then metadata of the copy changed",
     "A copied directory shares its metadata with the original",
     [(V, "            directory_clone = VirtualDirectory(name=node.name, metadata=dict(node.metadata))\n",
       "            directory_clone = VirtualDirectory(name=node.name)\n            directory_clone.metadata = node.metadata\n")],
     '''
from sandfs import VirtualFileSystem
fs = VirtualFileSystem()
fs.mkdir("/a"); fs.get_node("/a").metadata["k"] = 1
fs.copy("/a", "/b", recursive=True)
fs.get_node("/b").metadata["k"] = 2
assert fs.get_node("/a").metadata["k"] == 1
''')

seed("s28", "C11", "a storage mount synchronised after the store was emptied from outside",
     "Synchronising with an emptied store keeps the old files",
     [(V, "        directory.children.clear()\n        directory._loaded = True\n        for rel_path, entry in adapter.list().items():\n",
       "        entries = adapter.list()\n        if entries:\n            directory.children.clear()\n        directory._loaded = True\n        for rel_path, entry in entries.items():\n")],
     '''
from sandfs import VirtualFileSystem, MemoryStorageAdapter
fs = VirtualFileSystem(); ad = MemoryStorageAdapter({"a": "1"})
fs.mount_storage("/m", ad)
ad.delete("a"); fs.sync_storage("/m")
assert not fs.exists("/m/a")
''')

seed("s29", "C08", "a view that names no classification at all",
     "A view with an empty set of classifications shows everything",
     [(P, "        if self.classifications is None:\n            return True\n", "        if not self.classifications:\n            return True\n")],
     '''
from sandfs import VirtualFileSystem, VisibilityView
fs = VirtualFileSystem(); fs.write_file("/f", "x")
assert [e.name for e in fs.ls("/", view=VisibilityView(classifications=[]))] == []
''')

seed("s30", "C15", "a search with the index on, in a file whose lines end in carriage returns or form feeds",
     "The index splits lines at newlines only, so line numbers differ from those without the index",
     [(I, "            for line_no, line in enumerate(content.splitlines(), start=1):\n",
       "            for line_no, line in enumerate(content.split(\"\\n\"), start=1):\n")],
     '''
from sandfs import VirtualFileSystem
from sandfs.search import SearchQuery
fs = VirtualFileSystem(); fs.write_file("/f", "a\\r\\nb\\x0cxx\\n")
q = SearchQuery(query="xx")
want = fs.search(q); fs.enable_full_text_index()
assert fs.search(q) == want
''')

seed("s31", "C21", "a provided file with both a content provider and a policy",
     "A provided file with a content provider does not get its policy",
     [(N, "        if provided.policy is not None:\n            file_node.policy = provided.policy\n",
       "        if provided.policy is not None and file_node._provider is None:\n            file_node.policy = provided.policy\n")],
     '''
from sandfs import VirtualFileSystem, NodePolicy, ProvidedNode
fs = VirtualFileSystem()
fs.mount_directory("/p", lambda ctx: {"f": ProvidedNode.file(content_provider=lambda c: "t", policy=NodePolicy(writable=False))})
assert fs.get_node("/p/f").policy.writable is False
''')

seed("s32", "C18", "a pipeline whose first command has its output redirected to a file",
     "After a redirection the next command of the pipeline still gets the text",
     [(S, "                self._write_to_path(out_path, output, append=spec.append)\n                output = \"\"\n",
       "                self._write_to_path(out_path, output, append=spec.append)\n                output = \"\" if spec is pipeline.commands[-1] else output\n")],
     '''
from sandfs import VirtualFileSystem, SandboxShell
r = SandboxShell(VirtualFileSystem()).exec("echo hi > /f | cat")
assert r.stdout == "", r.stdout
''')

seed("s33", "C05", "a directory marked append-only, into which a file is moved",
     "move checks the permission of its target directory as if it only appended",
     [(V, "            if isinstance(dest_node, VirtualDirectory):\n                self._ensure_write_allowed(dest_node)\n                dest_parent = dest_node\n                dest_name = node.name\n            else:\n                raise InvalidOperation(f\"Destination {dest_path} already exists\")\n",
       "            if isinstance(dest_node, VirtualDirectory):\n                if not isinstance(node, VirtualDirectory):\n                    self._ensure_write_allowed(dest_node)\n                dest_parent = dest_node\n                dest_name = node.name\n            else:\n                raise InvalidOperation(f\"Destination {dest_path} already exists\")\n")],
     '''
from sandfs import VirtualFileSystem, NodePolicy
fs = VirtualFileSystem(); fs.mkdir("/a"); fs.mkdir("/ro"); fs.set_policy("/ro", NodePolicy(writable=False))
try:
    fs.move("/a", "/ro")
except Exception:
    pass
assert fs.exists("/a") and not fs.exists("/ro/a")
''')
