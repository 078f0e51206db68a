"""Refactorings that change no behaviour, applied together (or by name) to a scratch copy of /repo: every check must stay quiet.
usage: neutral.py OUTDIR [names]   then run the checks with SANDFS_REPO=OUTDIR"""
import os, shutil, sys

V, S, A = "vfs", "shell", "adapters"
N = {
    "rollback helper": [(V, """            # The store refused the write: put the tree back as it was.
            node._content, node._provider, node.modified_at = previous
            node.version = previous_version
            if missing is not None:
                self._resolve_dir(missing.parent).remove_child(missing.name)
            raise
""", """            self._undo_write(node, previous, previous_version, missing)
            raise
"""), (V, """    def append_file(
""", """    def _undo_write(self, node, previous, version, missing) -> None:
        # The store refused the write: put the tree back as it was.
        content, provider, stamp = previous
        node._content = content
        node._provider = provider
        node.modified_at = stamp
        node.version = version
        if missing is None:
            return
        parent = self._resolve_dir(missing.parent)
        parent.remove_child(missing.name)

    def append_file(
""")],
    "remove helper": [(V, """            names = list(node.children.keys())
            for child_name in names:
                child_node = node.children.get(child_name)
                if child_node is None:
                    continue
                self.remove(child_node.path(), recursive=True)
""", """            self._remove_entries(node)
"""), (V, """    def move(self, source""", """    def _remove_entries(self, directory: VirtualDirectory) -> None:
        for entry_name in list(directory.children):
            entry = directory.children.get(entry_name)
            if entry is not None:
                self.remove(entry.path(), recursive=True)

    def move(self, source""")],
    "move inside check": [(V, """            try:
                dest_parent_path.relative_to(node_path)
                raise InvalidOperation("Cannot move a directory inside itself")
            except ValueError:
                pass
            if dest_parent_path == node_path:
                raise InvalidOperation("Destination directory matches source directory")
""", """            if dest_parent_path.is_relative_to(node_path):
                raise InvalidOperation("Cannot move a directory inside itself")
""")],
    "normalize loop": [(V, """        for part in raw.parts:
            if part in ("", "/", "."):
                continue
            if part == "..":
                if parts:
                    parts.pop()
                continue
            parts.append(part)
        return PurePosixPath("/" + "/".join(parts)) if parts else PurePosixPath("/")
""", """        for piece in raw.parts:
            if piece == "..":
                if len(parts) > 0:
                    parts.pop()
            elif piece not in ("", "/", "."):
                parts.append(piece)
        if not parts:
            return PurePosixPath("/")
        return PurePosixPath("/" + "/".join(parts))
""")],
    "resolve without the root case": [(V, """        current: VirtualNode = self.root
        if target == PurePosixPath("/"):
            return self.root
        for part""", """        current: VirtualNode = self.root
        for part""")],
    "storage mount": [(V, """        matches: list[tuple[PurePosixPath, StorageAdapter]] = []
        for prefix, adapter in self._storage_mounts.items():
            if self._path_matches_prefix(path, prefix):
                matches.append((prefix, adapter))
        if not matches:
            return None
        return max(matches, key=lambda item: len(item[0].parts))
""", """        matches = [
            (prefix, adapter)
            for prefix, adapter in self._storage_mounts.items()
            if self._path_matches_prefix(path, prefix)
        ]
        if matches:
            return max(matches, key=lambda item: len(item[0].parts))
        return None
""")],
    "storage target": [(V, """        mount = self._find_storage_mount(node.path())
        if not mount:
            return
        prefix, adapter = mount
        relative = self._relative_storage_path(node.path(), prefix)
        adapter.delete(relative)
""", """        path = node.path()
        mount = self._find_storage_mount(path)
        if mount is not None:
            adapter = mount[1]
            adapter.delete(self._relative_storage_path(path, mount[0]))
""")],
    "search matcher": [(V, """                matched = False
                if query.regex:
                    if compiled and compiled.search(line):
                        matched = True
                elif query.ignore_case:
                    if lowered and lowered in line.lower():
                        matched = True
                else:
                    if query.query in line:
                        matched = True
                if matched:
                    file_results""", """                if self._line_matches(query, compiled, lowered, line):
                    file_results"""), (V, """    def glob(
""", """    def _line_matches(self, query, compiled, lowered, line: str) -> bool:
        if query.regex:
            return bool(compiled and compiled.search(line))
        if query.ignore_case:
            return bool(lowered) and lowered in line.lower()
        return query.query in line

    def glob(
""")],
    "walk children": [(V, """            if isinstance(node, VirtualDirectory):
                node.ensure_loaded(self)
                for child in node.iter_children(self):
                    yield from _walk(child)
""", """            if not isinstance(node, VirtualDirectory):
                return
            for child in node.iter_children(self):
                for pair in _walk(child):
                    yield pair
""")],
    "snapshot helper": [(V, """            if isinstance(node, VirtualFile):
                content = node.read(self)
            else:
                content = None
            nodes[str(path)] = NodeSnapshot(
                is_dir=isinstance(node, VirtualDirectory),
                metadata=dict(node.metadata),
                policy=self._clone_policy(node.policy),
                version=node.version,
                created_at=node.created_at,
                modified_at=node.modified_at,
                content=content,
            )
""", """            nodes[str(path)] = self._node_state(node)
"""), (V, """    def restore(self""", """    def _node_state(self, node: VirtualNode) -> NodeSnapshot:
        content = node.read(self) if isinstance(node, VirtualFile) else None
        return NodeSnapshot(
            is_dir=isinstance(node, VirtualDirectory),
            metadata=dict(node.metadata),
            policy=self._clone_policy(node.policy),
            version=node.version,
            created_at=node.created_at,
            modified_at=node.modified_at,
            content=content,
        )

    def restore(self""")],
    "restore helper": [(V, """                directory = self._resolve_dir(path, create=True)
                directory.metadata = dict(node_state.metadata)
                directory.policy = self._clone_policy(node_state.policy)
                directory.version = node_state.version
                directory.created_at = node_state.created_at
                directory.modified_at = node_state.modified_at
""", """                self._set_state(self._resolve_dir(path, create=True), node_state)
"""), (V, """                file_node.metadata = dict(node_state.metadata)
                file_node.policy = self._clone_policy(node_state.policy)
                file_node.write(node_state.content or "")
                file_node.version = node_state.version
                file_node.created_at = node_state.created_at
                file_node.modified_at = node_state.modified_at
""", """                file_node.write(node_state.content or "")
                self._set_state(file_node, node_state)
"""), (V, """    def export_to_path(
""", """    def _set_state(self, node: VirtualNode, state: NodeSnapshot) -> None:
        node.metadata = dict(state.metadata)
        node.policy = self._clone_policy(state.policy)
        node.version = state.version
        node.created_at = state.created_at
        node.modified_at = state.modified_at

    def export_to_path(
""")],
    "create check loop": [(V, """        missing: PurePosixPath | None = None
        while not self.exists(target):
            missing = target
            target = target.parent
        if missing is not None:
            self._ensure_write_allowed(self._resolve_node(target), append=True)
        return missing
""", """        missing: PurePosixPath | None = None
        while True:
            if self.exists(target):
                break
            missing, target = target, target.parent
        if missing is None:
            return None
        anchor = self._resolve_node(target)
        self._ensure_write_allowed(anchor, append=True)
        return missing
""")],
    "ls comprehension": [(V, """        entries: list[DirEntry] = []
        for child in directory.iter_children(self):
            if view and not view.allows_node(child):
                continue
            entries.append(
                DirEntry(
                    name=child.name,
                    path=child.path(),
                    is_dir=isinstance(child, VirtualDirectory),
                    metadata=child.metadata,
                    policy=child.policy,
                )
            )
        entries.sort(key=lambda entry: (not entry.is_dir, entry.name))
        return entries
""", """        entries = [
            self._dir_entry(child)
            for child in directory.iter_children(self)
            if view is None or view.allows_node(child)
        ]
        return sorted(entries, key=lambda entry: (not entry.is_dir, entry.name))

    def _dir_entry(self, child: VirtualNode) -> DirEntry:
        return DirEntry(
            name=child.name,
            path=child.path(),
            is_dir=isinstance(child, VirtualDirectory),
            metadata=child.metadata,
            policy=child.policy,
        )
""")],
    "write event": [(V, """        if self._write_hooks:
            path = node.path()
            content = node.read(self)
            event = WriteEvent(path=str(path), content=content, version=node.version, append=append)
            for prefix, hook in self._write_hooks:
                if self._path_matches_prefix(path, prefix):
                    hook(event)
""", """        if self._write_hooks:
            self._run_write_hooks(node, append)
"""), (V, """    def _emit_path_event(""", """    def _run_write_hooks(self, node: VirtualFile, append: bool) -> None:
        where = node.path()
        text = node.read(self)
        event = WriteEvent(path=str(where), content=text, version=node.version, append=append)
        for entry in self._write_hooks:
            prefix, hook = entry
            if not self._path_matches_prefix(where, prefix):
                continue
            hook(event)

    def _emit_path_event(""")],
    "prefix match": [(V, """        if prefix == PurePosixPath("/"):
            return True
        try:
            path.relative_to(prefix)
            return True
        except ValueError:
            return False
""", """        if prefix == PurePosixPath("/"):
            return True
        return path.is_relative_to(prefix)
""")],
    "mount index": [(V, """        self._storage_mounts[normalized] = adapter
        self._load_storage_mount(normalized, adapter)
        self._rebuild_index()
        return directory
""", """        self._storage_mounts[normalized] = adapter
        self.sync_storage(normalized)
        return directory
""")],
    "load storage": [(V, """        for rel_path, entry in adapter.list().items():
            absolute = prefix.joinpath(PurePosixPath(rel_path))
            file_node = self._ensure_file(absolute, create=True)
""", """        stored = adapter.list()
        for rel_path in stored:
            entry = stored[rel_path]
            file_node = self._ensure_file(prefix / rel_path, create=True)
""")],
    "shell search": [(S, """        results: list[str] = []
        flags = re.MULTILINE
        if ignore_case:
            flags |= re.IGNORECASE
        compiled = re.compile(pattern, flags) if regex else None
        lowered = pattern.lower() if ignore_case and not regex else None
        for target in paths:
            for file_path, file_node in self.vfs.iter_files(target, recursive=recursive):
                if self.view and not self.view.allows_node(file_node):
                    continue
                if not file_node.policy.readable:
                    continue
                text = file_node.read(self.vfs)
""", """        results: list[str] = []
        flags = re.MULTILINE | (re.IGNORECASE if ignore_case else 0)
        compiled = re.compile(pattern, flags) if regex else None
        lowered = pattern.lower() if ignore_case and not regex else None
        for target in paths:
            for file_path, file_node in self.vfs.iter_files(target, recursive=recursive):
                visible = not self.view or self.view.allows_node(file_node)
                if not visible or not file_node.policy.readable:
                    continue
                text = file_node.read(self.vfs)
""")],
    "find walker": [(S, """            if self.view and not self.view.allows_node(node):
                return
            yield (node.path(), node)
            if isinstance(node, VirtualDirectory):
                node.ensure_loaded(self.vfs)
                for child in node.iter_children(self.vfs):
                    yield from walk_visible(child)
""", """            hidden = bool(self.view) and not self.view.allows_node(node)
            if not hidden:
                yield (node.path(), node)
                if isinstance(node, VirtualDirectory):
                    for child in node.iter_children(self.vfs):
                        yield from walk_visible(child)
""")],
    "memory write": [(A, """    def delete(self, path: str) -> None:
        self._entries.pop(path, None)
""", """    def delete(self, path: str) -> None:
        if path in self._entries:
            del self._entries[path]
""")],
    "file adapter write": [(A, """        mtime = target.stat().st_mtime_ns
        new_version = current + 1
        self._versions[path] = new_version
        self._mtimes[path] = mtime
        return StorageEntry(content=content, version=new_version)
""", """        return StorageEntry(content=content, version=self._note_write(path, target, current + 1))

    def _note_write(self, path: str, target: Path, version: int) -> int:
        self._mtimes[path] = target.stat().st_mtime_ns
        self._versions[path] = version
        return version
""")],
    "rebuild": [(V, """        entries = []
        skip_prefixes = [self._search_view_prefix] if self._search_view_prefix else None
        for path, file_node in self._iter_files(self.root, skip_prefixes=skip_prefixes):
            try:
                content = file_node.read(self)
            except SandboxError:
                continue
            entries.append((path, content))
        self._full_text_index.build(entries)
""", """        skip = [self._search_view_prefix] if self._search_view_prefix else None
        found: list[tuple[PurePosixPath, str]] = []
        for path, file_node in self._iter_files(self.root, skip_prefixes=skip):
            with contextlib.suppress(SandboxError):
                found.append((path, file_node.read(self)))
        self._full_text_index.build(found)
""")],
    "iter files": [(V, """            for child in dir_node.iter_children(self):
                if isinstance(child, VirtualFile):
                    if not should_skip(child.path()):
                        yield (child.path(), child)
                elif isinstance(child, VirtualDirectory) and recursive:
                    if should_skip(child.path()):
                        continue
                    child.ensure_loaded(self)
                    yield from _walk_dir(child)
""", """            for child in dir_node.iter_children(self):
                location = child.path()
                if should_skip(location):
                    continue
                if isinstance(child, VirtualFile):
                    yield (location, child)
                elif recursive and isinstance(child, VirtualDirectory):
                    yield from _walk_dir(child)
""")],
    "clone": [(V, """            directory_clone = VirtualDirectory(name=node.name, metadata=dict(node.metadata))
            directory_clone.policy = self._clone_policy(node.policy)
            for child in node.iter_children(self):
                child_clone = self._clone_node(child, recursive=recursive)
                directory_clone.add_child(child_clone)
            return directory_clone
""", """            result = VirtualDirectory(name=node.name, metadata=dict(node.metadata))
            for child in node.iter_children(self):
                result.add_child(self._clone_node(child, recursive=recursive))
            result.policy = self._clone_policy(node.policy)
            return result
""")],
}

if __name__ == "__main__":
    out, names = sys.argv[1], sys.argv[2:] or list(N)
    shutil.copytree("/repo", out, symlinks=True)
    for n in names:
        for f, old, new in N[n]:
            p = "%s/sandfs/%s.py" % (out, f)
            s = open(p).read()
            if s.count(old) < 1:
                print("NO SUCH TEXT", n, old[:60])
                continue
            open(p, "w").write(s.replace(old, new, 1))
