M = "MemoryStorageAdapter."
V = "VirtualFileSystem."
Z = "SandboxShell."
X = "PythonExecutor."
F = "FileSystemAdapter."
BROKEN = [
    (V + "remove", "vfs", "        self._ensure_write_allowed(node)\n        self._ensure_write_allowed(parent)\n        if isinstance(node, VirtualDirectory) and node.children", "        self._ensure_write_allowed(parent)\n        if isinstance(node, VirtualDirectory) and node.children"),
    (V + "remove", "vfs", "                self.remove(child_node.path(), recursive=True)\n", "                if isinstance(child_node, VirtualDirectory):\n                    self.remove(child_node.path(), recursive=True)\n"),
    (V + "remove", "vfs", "            self._delete_storage_entry(node)\n            self._remove_index_entry(node.path())\n            self._emit_path", "            self._remove_index_entry(node.path())\n            self._emit_path"),
    (V + "remove", "vfs", "            self._remove_index_entry(node.path())\n            self._emit_path", "            self._remove_index_entry(target.parent)\n            self._emit_path"),
    (V + "remove", "vfs", "and node.children and not recursive:", "and len(node.children) > 1 and not recursive:"),
    (V + "remove", "vfs", "        self._ensure_write_allowed(parent)\n        if isinstance(node, VirtualDirectory) and node.children", "        if not recursive:\n            self._ensure_write_allowed(parent)\n        if isinstance(node, VirtualDirectory) and node.children"),
    (V + "_clone_policy", "vfs", "principals=set(policy.principals)", "principals=policy.principals"),
    (V + "_clone_node", "vfs", "            directory_clone.policy = self._clone_policy(node.policy)\n", "            directory_clone.policy = node.policy\n"),
    (V + "_clone_node", "vfs", "            directory_clone.policy = self._clone_policy(node.policy)\n", ""),
    (V + "_clone_node", "vfs", "            file_clone.write(node.read(self))\n", "            file_clone.write(node._content or \"\")\n"),
    (V + "_clone_node", "vfs", "                child_clone = self._clone_node(child, recursive=recursive)\n", "                child_clone = self._clone_node(child, recursive=recursive) if isinstance(child, VirtualFile) else VirtualDirectory(name=child.name)\n"),
    (V + "copy", "vfs", "                self._ensure_write_allowed(parent_node)\n                self._ensure_write_allowed(dest_node)\n                if dest_node is node", "                self._ensure_write_allowed(parent_node)\n                if dest_node is node"),
    (V + "copy", "vfs", "        self._ensure_read_allowed(node)\n\n        dest_path", "        dest_path"),
    (V + "copy", "vfs", "        if isinstance(clone, VirtualFile):\n            self._index_file(clone)\n", "        if isinstance(clone, VirtualFile) and not replaces:\n            self._index_file(clone)\n"),
    (V + "copy", "vfs", "        clone.name = dest_name\n        if replaces:\n            dest_parent.remove_child(dest_name)\n        dest_parent.add_child(clone)\n", "        if replaces:\n            dest_parent.remove_child(dest_name)\n        clone.name = dest_name\n        node.metadata.clear()\n        dest_parent.add_child(clone)\n"),
    (V + "copy", "vfs", "                target_path.relative_to(node.path())\n                raise InvalidOperation(\"Cannot copy", "                if target_path == node.path():\n                    raise InvalidOperation(\"Cannot copy"),
    (V + "copy", "vfs", "        dest_parent.ensure_loaded(self)\n        clone = self._clone_node(node, recursive=recursive)\n        clone.name = dest_name\n        if replaces:\n            dest_parent.remove_child(dest_name)\n", "        dest_parent.ensure_loaded(self)\n        if replaces:\n            dest_parent.remove_child(dest_name)\n        clone = self._clone_node(node, recursive=recursive)\n        clone.name = dest_name\n"),
    (V + "move", "vfs", "        if dest_name in dest_parent.children:\n            raise NodeExists(f\"Node {dest_name} already exists in {dest_parent_path}\")\n\n        parent.remove_child(node.name)", "        parent.remove_child(node.name)"),
    (V + "move", "vfs", "        self._ensure_write_allowed(node)\n        self._ensure_write_allowed(parent)\n\n        dest", "        self._ensure_write_allowed(parent)\n\n        dest"),
    (V + "move", "vfs", "            self._remove_index_entry(original_path)\n            self._index_file(node)\n", "            self._remove_index_entry(node.path())\n            self._index_file(node)\n"),
    (V + "move", "vfs", "                dest_parent_path.relative_to(node_path)\n                raise InvalidOperation", "                if dest_parent_path.parent == node_path:\n                    raise InvalidOperation"),
    (V + "move", "vfs", "        node.name = dest_name\n        dest_parent.add_child(node)\n", "        node.name = dest_name\n        node.version += 1\n        dest_parent.add_child(node)\n"),
    (F + "_resolve", "adapters", "(self.root / Path(rel.as_posix())).resolve()", "self.root.resolve() / Path(rel.as_posix())"),
    (F + "_resolve", "adapters", "        if not target.is_relative_to(self._root_resolved):", "        if not target.is_relative_to(self._root_resolved.parent):"),
    (F + "_resolve", "adapters", "        if not target.is_relative_to(self._root_resolved):", "        if not str(target).startswith(str(self._root_resolved)):"),
    (F + "delete", "adapters", "        target = self._resolve(path)\n        if target.exists():\n            target.unlink()", "        target = self.root / path\n        if target.exists():\n            target.unlink()"),
    (F + "list", "adapters", "            if not path.resolve().is_relative_to(self._root_resolved):\n                continue\n", ""),
    (F + "list", "adapters", "            if not path.resolve().is_relative_to(self._root_resolved):\n", "            if not path.is_relative_to(self.root):\n"),
    (F + "write", "adapters", "        target = self._resolve(path)\n        current", "        target = self.root / path\n        target.parent.mkdir(parents=True, exist_ok=True)\n        target = self._resolve(path)\n        current"),
    (F + "write", "adapters", "        if current != version:", "        if current > version:"),
    (F + "write", "adapters", "        self._versions[path] = new_version\n        self._mtimes[path] = mtime\n", "        self._versions[path] = new_version\n"),
    (F + "_refresh_version", "adapters", "        if self._mtimes.get(rel_path) != mtime:", "        if self._mtimes.get(rel_path, 0) < mtime:"),
    (F + "delete", "adapters", "        self._versions.pop(path, None)\n        self._mtimes.pop(path, None)\n", "        self._versions.clear()\n        self._mtimes.pop(path, None)\n"),
    (X + "run", "pyexec", 'env["__builtins__"] = dict(self._builtins)', 'env["__builtins__"] = self._builtins'),
    (X + "run", "pyexec", 'env["__builtins__"] = dict(self._builtins)', 'env.setdefault("__builtins__", dict(self._builtins))'),
    (X + "run", "pyexec", "env: dict[str, Any] = dict(self._globals_template)", "env: dict[str, Any] = self._globals_template"),
    (X + "run", "pyexec", '        if extra_globals:\n            env.update(extra_globals)\n        env["__builtins__"] = dict(self._builtins)\n', '        env["__builtins__"] = dict(self._builtins)\n        if extra_globals:\n            env.update(extra_globals)\n'),
    (X + "run", "pyexec", "            env.update(extra_globals)\n", "            self._globals_template.update(extra_globals)\n            env.update(extra_globals)\n"),
    (X + "run", "pyexec", '        env.pop("__builtins__", None)\n', '        env.pop("__builtins__", None)\n        self._globals_template.update(env)\n'),
    (X + "__init__", "pyexec", "self._builtins = dict(_ALLOWED_BUILTINS)", "self._builtins = _ALLOWED_BUILTINS"),
    (X + "__init__", "pyexec", '    "any": any,\n', '    "any": any,\n    "open": open,\n'),
    (X + "__init__", "pyexec", "        if globals_template:\n            base.update(globals_template)\n        self._globals_template = base\n", "        if globals_template is not None:\n            globals_template.update(base)\n            base = globals_template\n        self._globals_template = base\n"),
    (Z + "_enforce_output_limit", "shell", "if total <= self.max_output_bytes:", "if total <= self.max_output_bytes + 1:"),
    (Z + "_enforce_output_limit", "shell", "len(text.encode(\"utf-8\", \"surrogatepass\"))", "len(text)"),
    (Z + "_enforce_output_limit", "shell", "for text in (result.stdout, result.stderr)", "for text in (result.stdout,)"),
    (Z + "_enforce_output_limit", "shell", "            stdout=\"\",\n            stderr=f\"Output", "            stdout=result.stdout[:10],\n            stderr=f\"Output"),
    (Z + "_run_command", "shell", "        if self.allowed_commands is not None and name not in", "        if self.allowed_commands and name not in"),
    (Z + "_run_command", "shell", "            if self.host_fallback:\n", "            if self.host_fallback or name.startswith(\"/\"):\n"),
    (Z + "_run_command", "shell", "if self.allowed_commands is not None and name not in self.allowed_commands:", "if handler is not None and self.allowed_commands is not None and name not in self.allowed_commands:"),
    (Z + "exec", "shell", "            last_result = self._enforce_output_limit(last_result)\n", ""),
    (Z + "exec", "shell", "except Exception as exc:\n                last_result", "except SandboxError as exc:\n                last_result"),
    (Z + "exec", "shell", "if last_result.exit_code != 0:", "if last_result.exit_code == 1:"),
    (Z + "_exec_pipeline", "shell", "            if result.exit_code != 0:\n", "            if result.exit_code != 0 and not result.stdout:\n"),
    (Z + "_exec_pipeline", "shell", "                output = \"\"\n", ""),
    (Z + "_exec_pipeline", "shell", "append=spec.append)", "append=True)"),
    (Z + "_exec_pipeline", "shell", "            if spec.stdin is not None:\n", "            if spec.stdin is not None and not stdout_pipe:\n"),
    (M + "read", "adapters", "        return StorageEntry(content=entry.content, version=entry.version)\n\n    def write", "        return entry\n\n    def write"),
    (M + "write", "adapters", "if entry and entry.version != version:", "if entry and entry.version > version:"),
    (M + "write", "adapters", "        return StorageEntry(content=entry.content, version=entry.version)\n\n    def list", "        return entry\n\n    def list"),
    (M + "write", "adapters", "next_version = version + 1", "next_version = max(version, entry.version if entry else 0) + 1 if version else 1 + (version == 0)"),
    (M + "list", "adapters", "            path: StorageEntry(content=entry.content, version=entry.version)\n", "            path: entry\n"),
    (M + "list", "adapters", "            for path, entry in self._entries.items()\n", "            for path, entry in self._entries.items() if entry.content\n"),
    (M + "delete", "adapters", "self._entries.pop(path, None)", "self._entries.clear()"),
    ("FullTextIndex.remove_file", "search", "self._files.pop(path, None)", "self._files.pop(path.parent, None)"),
    (V + "touch", "vfs", "        node.modified_at = time.time()\n        return node\n", "        node.modified_at = time.time()\n        node.version += 1\n        return node\n"),
    (V + "touch", "vfs", "        self._check_create_allowed(path)\n        node = self._ensure_file", "        node = self._ensure_file"),
    (V + "mkdir", "vfs", "        self._ensure_write_allowed(parent)\n        name = normalized.name", "        name = normalized.name"),
    (V + "mkdir", "vfs", "        if parents:\n            self._check_create_allowed(normalized)\n", ""),
    (V + "read_file", "vfs", "        self._ensure_read_allowed(node)\n        return node.read(self)", "        return node.read(self)"),
    (V + "cd", "vfs", "        self._ensure_read_allowed(node)\n        self.cwd = node", "        self.cwd = node"),
    (V + "append_file", "vfs", "data, append=True, expected_version=expected_version", "data, append=True"),
    (V + "append_file", "vfs", "data, append=True, expected_version", "data, expected_version"),
]
NEUTRAL = [
    (V + "remove", "vfs", "            names = list(node.children.keys())\n            for child_name in names:\n                child_node = node.children.get(child_name)\n                if child_node is None:\n                    continue\n                self.remove(child_node.path(), recursive=True)\n", "            for child_node in list(node.children.values()):\n                self.remove(child_node.path(), recursive=True)\n"),
    (V + "remove", "vfs", "            self._delete_storage_entry(node)\n            self._remove_index_entry(node.path())\n            self._emit_path", "            where = node.path()\n            self._remove_index_entry(where)\n            self._delete_storage_entry(node)\n            self._emit_path"),
    (V + "_clone_node", "vfs", "file_clone = VirtualFile(name=node.name, metadata=dict(node.metadata))", "file_clone = VirtualFile(name=node.name, metadata=node.metadata)"),
    (V + "_clone_node", "vfs", "            for child in node.iter_children(self):\n                child_clone = self._clone_node(child, recursive=recursive)\n                directory_clone.add_child(child_clone)\n", "            for entry in list(node.children.values()):\n                directory_clone.add_child(self._clone_node(entry, recursive=recursive))\n"),
    (V + "_clone_node", "vfs", "            file_clone = VirtualFile(name=node.name, metadata=dict(node.metadata))\n            file_clone.policy = self._clone_policy(node.policy)\n            file_clone.write(node.read(self))\n", "            text = node.read(self)\n            file_clone = VirtualFile(name=node.name, metadata={**node.metadata})\n            file_clone.write(text)\n            file_clone.policy = self._clone_policy(node.policy)\n"),
    (V + "copy", "vfs", "        clone = self._clone_node(node, recursive=recursive)\n        clone.name = dest_name\n        if replaces:\n            dest_parent.remove_child(dest_name)\n", "        clone = self._clone_node(node, recursive=recursive)\n        if replaces:\n            dest_parent.remove_child(dest_name)\n        clone.name = dest_name\n"),
    (V + "move", "vfs", "        if isinstance(node, VirtualFile):\n            self._remove_index_entry(original_path)\n            self._index_file(node)\n        else:\n            self._rebuild_index()\n", "        if not isinstance(node, VirtualFile):\n            self._rebuild_index()\n            return\n        self._remove_index_entry(original_path)\n        self._index_file(node)\n"),
    (F + "_resolve", "adapters", "        target = (self.root / Path(rel.as_posix())).resolve()\n        if not target.is_relative_to(self._root_resolved):\n            raise ValueError(f\"Path escapes adapter root: {path}\")\n        return target", "        candidate = self.root.joinpath(rel.as_posix()).resolve()\n        if candidate.is_relative_to(self._root_resolved):\n            return candidate\n        raise ValueError(f\"Path escapes adapter root: {path}\")"),
    (F + "list", "adapters", "            if not path.is_file():\n                continue\n            if not path.resolve().is_relative_to(self._root_resolved):\n                continue\n", "            if not (path.is_file() and path.resolve().is_relative_to(self._root_resolved)):\n                continue\n"),
    (F + "delete", "adapters", "        if target.exists():\n            target.unlink()\n        self._versions.pop(path, None)\n        self._mtimes.pop(path, None)\n", "        for table in (self._versions, self._mtimes):\n            table.pop(path, None)\n        if target.exists():\n            target.unlink()\n"),
    (X + "run", "pyexec", "env: dict[str, Any] = dict(self._globals_template)\n        if extra_globals:\n            env.update(extra_globals)\n", "env = {**self._globals_template, **(extra_globals or {})}\n"),
    (X + "run", "pyexec", "            exec(compile(code, filename, \"exec\"), env, env)\n", "            program = compile(code, filename, \"exec\")\n            exec(program, env)\n"),
    (X + "run", "pyexec", 'env["__builtins__"] = dict(self._builtins)', 'env["__builtins__"] = self._builtins.copy()'),
    (X + "__init__", "pyexec", "        self._builtins = dict(_ALLOWED_BUILTINS)\n        if builtins:\n            self._builtins.update(builtins)\n", "        allowed = dict(_ALLOWED_BUILTINS)\n        for name, value in (builtins or {}).items():\n            allowed[name] = value\n        self._builtins = allowed\n"),
    (X + "__init__", "pyexec", "self._builtins = dict(_ALLOWED_BUILTINS)\n        if builtins:\n            self._builtins.update(builtins)\n", "self._builtins = {**_ALLOWED_BUILTINS, **(builtins or {})}\n"),
    (Z + "_enforce_output_limit", "shell", "        total = sum(\n            len(text.encode(\"utf-8\", \"surrogatepass\")) for text in (result.stdout, result.stderr)\n        )\n",
     "        total = 0\n        for text in (result.stdout, result.stderr):\n            total += len(text.encode(\"utf-8\", \"surrogatepass\"))\n"),
    (Z + "_run_command", "shell", "        handler = self.commands.get(name)\n        if self.allowed_commands is not None and name not in self.allowed_commands:\n", "        permitted = self.allowed_commands is None or name in self.allowed_commands\n        handler = self.commands.get(name)\n        if not permitted:\n"),
    (Z + "exec", "shell", "        for segment in filter(None, (line.strip() for line in command.splitlines())):\n", "        for raw in command.splitlines():\n            segment = raw.strip()\n            if not segment:\n                continue\n"),
    (Z + "_exec_pipeline", "shell", "            output = result.stdout\n            if spec.stdout is not None:\n                out_path = self._expand_vars(spec.stdout, env)\n                self._write_to_path(out_path, output, append=spec.append)\n                output = \"\"\n            stdout_pipe = output\n",
     "            stdout_pipe = result.stdout\n            target = spec.stdout\n            if target is not None:\n                self._write_to_path(self._expand_vars(target, env), stdout_pipe, append=spec.append)\n                stdout_pipe = \"\"\n"),
    (M + "write", "adapters", "        next_version = version + 1\n        entry = StorageEntry(content=content, version=next_version)\n        self._entries[path] = entry\n",
     "        if entry is not None:\n            entry.content, entry.version = content, version + 1\n        else:\n            entry = StorageEntry(content, version + 1)\n            self._entries[path] = entry\n"),
    (M + "list", "adapters", "        return {\n            path: StorageEntry(content=entry.content, version=entry.version)\n            for path, entry in self._entries.items()\n        }\n",
     "        out: dict[str, StorageEntry] = {}\n        for path, entry in self._entries.items():\n            out[path] = StorageEntry(content=entry.content, version=entry.version)\n        return out\n"),
    (V + "touch", "vfs", "        node.modified_at = time.time()\n        return node\n", "        now = time.time()\n        node.modified_at = now\n        return node\n"),
    (V + "mkdir", "vfs", "        name = normalized.name\n        if not name:\n            raise InvalidOperation(\"Directory name missing\")\n        try:\n            existing = parent.get_child(name, self)\n        except NodeNotFound:\n            node =",
     "        name = normalized.name\n        try:\n            existing = parent.get_child(name, self)\n        except NodeNotFound:\n            node ="),
    (V + "read_file", "vfs", "        node = self._ensure_file(path, create=False)\n        self._ensure_read_allowed(node)\n        return node.read(self)",
     "        node = self._ensure_file(path, create=False)\n        if node.policy.readable:\n            return node.read(self)\n        raise InvalidOperation(f\"{node.path()} is not readable\")"),
]
