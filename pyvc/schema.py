"""Fields of the modelled classes (types as in values.py)."""
SCHEMA = {
    "N": {"classes": ["VirtualNode", "VirtualFile", "VirtualDirectory"],
          "fields": {"name": "str", "parent": ("opt", ("ref", "VirtualDirectory")), "metadata": ("dict", "str", "obj"),
                     "policy": ("ref", "NodePolicy"), "version": "int", "created_at": "real", "modified_at": "real",
                     "_content": "str", "_provider": ("opt", "pfun"), "loader": ("opt", "lfun"), "_loaded": "bool",
                     "children": "kids"},
          "file_only": ("_content", "_provider"), "dir_only": ("loader", "_loaded", "children")},
    "Po": {"classes": ["NodePolicy"],
           "fields": {"readable": "bool", "writable": "bool", "append_only": "bool", "classification": "str",
                      "principals": ("set", "str")}},
    "W": {"classes": ["VisibilityView"],
          "fields": {"classifications": ("opt", ("set", "str")), "principals": ("opt", ("set", "str")),
                     "path_prefixes": ("opt", ("set", "path")),
                     "metadata_filters": ("opt", ("dict", "str", "obj"))}},
    "V": {"classes": ["VirtualFileSystem"],
          "fields": {"root": ("ref", "VirtualDirectory"), "cwd": ("ref", "VirtualDirectory"),
                     "_write_hooks": ("list", ("tup", ("path", "fun"))),
                     "_path_hooks": ("list", ("tup", ("path", "fun"))),
                     "_storage_mounts": ("dict", "path", ("ref", "StorageAdapter")),
                     "_full_text_index": ("opt", ("ref", "FullTextIndex")),
                     "_search_view_prefix": ("opt", "path"),
                     "_search_view_context": ("opt", ("ref", "SearchViewContext"))}},
    "A": {"classes": ["StorageAdapter"], "fields": {"@dom": "smap_bool", "@text": "smap_str", "@ver": "smap_int"}},
    "C": {"classes": ["SearchViewContext"], "fields": {"query": "obj", "view": ("opt", ("ref", "VisibilityView"))}},
    "I": {"classes": ["FullTextIndex"], "fields": {"_files": ("dict", "path", "str")}},
    "E": {"classes": ["StorageEntry"], "fields": {"content": "str", "version": "int"}},
    "M": {"classes": ["MemoryStorageAdapter"],
          "fields": {"initial": ("dict", "str", "str"), "_entries": ("dict", "str", ("ref", "StorageEntry"))}},
    "F": {"classes": ["FileSystemAdapter"],
          "fields": {"root": "hpath", "encoding": "str", "_root_resolved": "hpath",
                     "_versions": ("dict", "str", "int"), "_mtimes": ("dict", "str", "int")}},
    # the host filesystem, by real location (one object, host_fs)
    "O": {"classes": ["HostFS"], "fields": {"@file": "omap_bool", "@dir": "omap_bool", "@text": "omap_str", "@mtime": "omap_int"}},
    "X": {"classes": ["PythonExecutor"],
          "fields": {"vfs": ("ref", "VirtualFileSystem"), "_builtins": ("dict", "str", "obj"),
                     "_globals_template": ("dict", "str", "obj")}},
    "Q": {"classes": ["PythonExecutionResult"], "fields": {"stdout": "str", "globals": ("dict", "str", "obj")}},
    "H": {"classes": ["SandboxShell"],
          "fields": {"vfs": ("ref", "VirtualFileSystem"), "env": ("dict", "str", "str"),
                     "commands": ("dict", "str", "fun"), "command_docs": ("dict", "str", "str"),
                     "last_command_name": ("opt", "str"), "py_exec": ("ref", "PythonExecutor"),
                     "view": ("ref", "VisibilityView"), "allowed_commands": ("opt", ("set", "str")),
                     "max_output_bytes": ("opt", "int"), "host_fallback": "bool",
                     "_handler_accepts_ctx": ("dict", "str", "bool"),
                     # ghost: the protocol of a pipeline and of a script
                     "@pipe": "str", "@last": "str", "@rtext": "str", "@read": "bool", "@owed": "bool", "@failed": "bool",
                     "@down": "bool"}},
    "R": {"classes": ["CommandResult"], "fields": {"stdout": "str", "stderr": "str", "exit_code": "int"}},
    "T": {"classes": ["CommandContext"],
          "fields": {"stdin": "str", "env": ("dict", "str", "str"), "cwd": "str", "vfs": ("ref", "VirtualFileSystem"),
                     "view": ("opt", ("ref", "VisibilityView"))}},
    "G": {"classes": ["CommandSpec"],
          "fields": {"name": ("opt", "str"), "args": ("list", "str"), "assignments": ("dict", "str", "str"),
                     "stdin": ("opt", "str"), "stdout": ("opt", "str"), "append": "bool"}},
    "Z": {"classes": ["ParsedSearchPath"], "fields": {"base": "path", "query": "obj", "nav": ("opt", "path")}},
    "K": {"classes": ["NodeSnapshot"],
          "fields": {"is_dir": "bool", "metadata": ("dict", "str", "obj"), "policy": ("ref", "NodePolicy"), "version": "int",
                     "created_at": "real", "modified_at": "real", "content": ("opt", "str")}},
    "S": {"classes": ["VFSSnapshot"],
          "fields": {"nodes": ("dict", "str", ("ref", "NodeSnapshot")), "cwd": "path",
                     "storage_mounts": ("dict", "str", ("ref", "StorageAdapter"))}},
    "L": {"classes": ["Pipeline"], "fields": {"commands": ("list", ("ref", "CommandSpec"))}},
}
