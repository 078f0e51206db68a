"""Writes /verif/properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": observe, "hook_needed": None}})

V="sandfs/vfs.py"; N="sandfs/nodes.py"; S="sandfs/shell.py"; A="sandfs/adapters.py"; PO="sandfs/policies.py"; SE="sandfs/search.py"; PY="sandfs/pyexec.py"; PR="sandfs/providers.py"

p("C01","Every path names the node of its canonical form, confined to the sandbox",
 "Every path given to the filesystem, absolute or relative to the working directory, names exactly the node of its lexical canonical form: '.' and empty components are dropped and '..' drops the preceding component, never climbing above the sandbox root. Every path the filesystem reports (working directory, node paths, listings) is absolute and canonical and, when given back, names that same node.",
 ["inputs","histories"],"all path strings and path objects, all working directories, all trees",
 "Tests use a handful of clean absolute paths; none uses '..' above the root, '//' anchors or relative paths from nested directories.",
 [V,N],[("_normalize",V),("_resolve_node / _resolve_dir / _ensure_file",V),("VirtualNode.path",N)],["read_file","write_file","cd/pwd","exists","ls"],
 [("cwd","working directory node",V),("root","sandbox root",V)])
p("C02","The tree stays a tree",
 "After any sequence of filesystem operations, successful or refused, every entry of a directory has that directory as its parent and its entry name as its name, so every node is found again at the path it reports and at no other. No directory is ever its own descendant: moving or copying a directory into its own subtree is refused.",
 ["histories","inputs"],"all operation histories over write, touch, mkdir, remove, move, copy, mounts and restore",
 "Tests check a few moves and copies by content; parent links, double reachability and cycles over histories are never examined.",
 [V,N],[("add_child / remove_child",N),("move / copy containment checks",V)],["walk","get_node","ls","tree"],
 [("children / parent / name","links between nodes",N)])
p("C03","Writes take effect exactly and touch nothing else",
 "After a successful write the file reads back exactly the given text, after a successful append exactly its previously readable text followed by the given text (also when that text came from a provider), and touching a file never alters existing text. Missing parent directories are created, and no other file or directory changes its text, version, policy, metadata or location.",
 ["inputs","histories"],"all trees, paths, texts and append flags",
 "Tests read back the one file they wrote and never compare the rest of the tree.",
 [V,N],[("write_file / append_file / touch",V),("VirtualFile.write / read",N)],["read_file","snapshot","walk"],
 [("file content and provider","what readers see",N)])
p("C04","Refused operations leave everything as it was",
 "When a write, append, touch, mkdir, move, copy or non-recursive removal is refused with a sandbox error, the whole observable state is as it was before the call: the set of paths, every file's text, version, policy and metadata, search results, and the contents of mounted storage. In particular a conflicting or version-mismatched write changes no text and creates no file, and a refused move or copy loses no node.",
 ["inputs","histories","fault_sequences"],"all operations, trees, policies, version expectations and storage conflicts that lead to a refusal",
 "Tests assert that an error is raised but almost never compare the state before and after.",
 [V,N],[("checks before mutation in write_file, move, copy, mkdir",V),("rollback on storage conflict",V)],["snapshot","read_file","adapter.list","search"],
 [("tree and storage state","everything an operation could have half-done",V)])
p("C05","Read-only and append-only policies cannot be bypassed",
 "No filesystem write, append, touch, remove, move or copy changes, replaces or deletes a node whose policy is not writable, nor can such a node itself be moved (it travels only with a writable directory containing it), and one whose policy is append-only can only gain text at its end through an append. No such operation, nor creating a directory, adds an entry to or takes an entry from a directory whose policy is not writable.",
 ["inputs","histories"],"all trees, policies and operations, including recursive ones",
 "Two tests try one direct write each; removal, move, copy-over, recursive and creating operations are not tried against policies.",
 [V],[("_ensure_write_allowed and its call sites",V),("_check_create_allowed",V)],["write_file","remove","move","copy","mkdir","touch"],
 [("policy.writable / append_only","per-node write policy",PO)])
p("C06","Unreadable files are never disclosed",
 "The text of a file whose policy is not readable is never returned by reading it, by cat, head, tail, wc, grep, rg, search, the search view or input redirection, and such a file cannot be named as a copy source. A directory whose policy is not readable cannot be listed with ls or entered with cd.",
 ["inputs","histories"],"all trees and policies, with and without a search index, all commands that print file text",
 "One test lists one unreadable directory; no test reads, greps or searches an unreadable file.",
 [V,S],[("_ensure_read_allowed and its call sites",V),("readability filters in search and grep",V)],["read_file","search","shell stdout"],
 [("policy.readable","per-node read policy",PO)])
p("C07","A shell never acts on or discloses nodes hidden from its view",
 "For a shell with a visibility view, no built-in command other than the Python and host escape hatches outputs the text of a file that the view does not allow, or lists the name of an entry that the view does not allow (ls, tree, find, glob expansion, grep, search). Any such command or redirection that names a path whose node is hidden from the view is refused and neither reads, changes, moves, copies nor removes that node (a directory is hidden by policy or path, not by metadata filters; the search command instead filters its results).",
 ["inputs","configurations","histories"],"all views (classifications, principals, path prefixes, metadata filters), trees, policies and command lines",
 "Tests try ls and cat on a few files; other commands, redirections, globbing and combinations of filters are not covered.",
 [S,V,PO],[("_ensure_visible_path",S),("view filters in ls, tree, glob, search, find, grep",V)],["shell.exec"],
 [("view","what this shell may see",S)])
p("C08","A view decides visibility by exactly its declared filters",
 "A view allows a node exactly when all its filters pass: a node that names principals is allowed only if the view shares one of them (regardless of classification), a node without principals only if the view has no classification list or lists its classification; with path prefixes the node's path must lie inside, or on the way to, one of them by whole components; with metadata filters every listed key must be equal in the node's metadata.",
 ["inputs","configurations"],"all views and all node policies, paths and metadata",
 "Tests try about six combinations of a four-dimensional filter space.",
 [PO],[("VisibilityView.allows / allows_node",PO)],["VisibilityView.allows","VisibilityView.allows_node"])
p("C09","Versions count writes, and expected versions prevent lost updates",
 "Every successful write or append raises the file's version by exactly one from the value it had (zero for a new file), and no other filesystem operation on it changes its version: reads, touch, policy changes and moves keep it, and a copy, also onto an existing name, is a new file at version zero. A write with an expected version succeeds only if that is the file's current version (zero when the file is missing), and otherwise is refused.",
 ["inputs","histories"],"all histories of writes, appends, touches, moves and expected versions",
 "One test performs three writes.",
 [V],[("write_file version bookkeeping / _check_version",V)],["get_version","write_file"],
 [("version","per-node write counter",N)])
p("C10","Hooks see every change under their prefix, exactly once, with true payloads",
 "Each successful write or append calls every write hook and every path hook registered for a prefix containing the file (by whole path components) exactly once, in registration order, with the file's canonical path, its complete new text, its new version and the append flag, the path event being 'create' when the version was zero and 'update' otherwise. Each file removed, also by recursive removal, yields exactly one 'delete' event without text to each matching path hook, and hooks whose prefix does not contain the path are never called.",
 ["inputs","histories","configurations"],"all trees, hook registrations, prefixes and histories",
 "Tests register one hook and never check sibling prefixes, several hooks or recursive removal.",
 [V,"sandfs/hooks.py","sandfs/integrations.py"],[("_emit_write_event / _emit_path_event / _path_matches_prefix",V)],["hook callbacks"],
 [("write hooks, path hooks","registrations in order",V)])
p("C11","Storage mounts mirror every write and removal",
 "A successful write, append or removal of a file below a storage mount is passed to the adapter of the innermost mount containing it, under the file's path relative to that mount: the adapter then holds exactly the file's new text at the next version, or no longer holds it, and its other entries and other adapters are untouched. Mounting or re-synchronising makes the mounted directory hold exactly the adapter's entries with their texts and versions.",
 ["inputs","histories","configurations"],"all mount layouts (including nested mounts and prefixes that are string prefixes of each other), trees and histories",
 "Tests use one mount with one or two files; nested mounts and sibling prefixes are not covered.",
 [V,A],[("_find_storage_mount / _persist_storage / _delete_storage_entry / _load_storage_mount",V)],["adapter.list","read_file"],
 [("storage mounts","prefix to adapter",V)])
p("C12","Storage adapters detect conflicting writes",
 "An adapter write of an existing entry succeeds exactly when the given version is the entry's current version, then stores exactly the given text with the version raised by one; otherwise it fails and changes no entry. Entries handed out by read, write and list are independent of the store, listing reports exactly the stored entries, and deleting removes exactly that entry.",
 ["inputs","histories"],"all histories of read, write, list and delete on the in-memory adapter and on the host directory adapter (external modification being detected through the file's modification time)",
 "Tests perform one conflicting write per adapter.",
 [A],[("MemoryStorageAdapter",A),("FileSystemAdapter version tracking",A)],["adapter.write","adapter.list","adapter.read"],
 [("entries / versions","text and version per path",A)])
p("C13","The host directory adapter never reaches outside its root",
 "Whatever path it is given, and whatever symbolic links lie below its root, the host directory adapter reads, lists, writes and deletes only files whose real location is inside its root directory; any other path is refused before the host filesystem is changed or read.",
 ["inputs","configurations"],"all path strings and symbolic link layouts",
 "One test writes one '../' path.",
 [A],[("FileSystemAdapter._resolve and its call sites",A)],["host filesystem calls"],
 [("root","directory the adapter may touch",A)])
p("C14","Restoring a snapshot brings back the captured state",
 "Restoring a snapshot makes the set of paths, every file's text, and every node's policy, metadata, version and timestamps equal to what they were when it was taken, with the working directory back where it was if it existed, whatever happened in between and whatever the policies in the tree. Later changes to the filesystem never alter a snapshot, so it can be restored any number of times.",
 ["histories","inputs"],"all trees, policies and histories between snapshot and restore",
 "Tests restore two files in a tree without policies, metadata or read-only directories.",
 [V],[("snapshot / restore",V)],["snapshot","restore"],
 [("snapshot nodes","captured copies of node state",V)])
p("C15","Search returns exactly the matching lines, with or without the index",
 "A search returns exactly one result, with path, 1-based line number and text, for every line that matches the query in every readable file inside the query's path prefix (by whole components, the prefix itself naming a readable node or nothing) that the view allows, and nothing else. With the full-text index enabled the results over stored files stay the same after any history of writes, appends, moves, copies, removals, storage synchronisation and restores.",
 ["inputs","histories","configurations"],"all trees, queries (literal, regular expression, case-insensitive, prefix), views and histories",
 "Tests search single-line files after one move, one copy and one removal.",
 [V,SE],[("search",V),("FullTextIndex",SE),("index maintenance in write, move, copy, remove, restore",V)],["search","FullTextIndex.search"],
 [("index entries","path to text",SE)])
p("C16","Only permitted commands run, and the host only when opted in",
 "A shell constructed with an allow-list (even an empty one) never runs a command that is not on it, whether built-in, registered or unknown, alone or inside a pipeline: it answers with an error result. A command name the shell does not know starts a host process only if host fallback was switched on.",
 ["inputs","configurations"],"all command lines, allow-lists and fallback settings",
 "One test blocks one built-in command; fallback combined with an allow-list is not covered.",
 [S],[("_run_command",S)],["shell.exec","subprocess.run"],
 [("allowed_commands / host_fallback","agent mode settings",S)])
p("C17","Output above the byte limit is never delivered",
 "With an output limit set, the standard output and error text of every result the shell returns together take at most that many bytes in UTF-8; otherwise the result is the fixed limit message with empty output and a failing exit code. This holds for every command, pipeline, error and multi-line script.",
 ["inputs","configurations"],"all command lines, outputs, errors and limits",
 "One test prints ten ASCII characters against a limit of five.",
 [S],[("_enforce_output_limit and its call sites",S)],["shell.exec"],
 [("max_output_bytes","limit",S)])
p("C18","Shell execution always ends in a result and stops at the first failure",
 "Executing any command line returns a result and never raises: errors in parsing, expansion, redirection or a command give a non-zero exit code and an explanation. In a pipeline each command receives the previous command's output, or the redirected file's text, as input, and redirected output replaces or extends exactly the target file; after the first failing command or script line nothing further runs.",
 ["inputs","fault_sequences"],"all command lines, registered commands (also failing ones) and trees",
 "Tests run short, successful pipelines.",
 [S,"sandfs/shell_parser.py"],[("exec / _exec_pipeline / _run_command",S),("parse_pipeline","sandfs/shell_parser.py")],["shell.exec"])
p("C19","Copies are faithful and independent",
 "A successful copy leaves the source unchanged and produces at the destination a node of the same kind with the same text, policy and metadata, recursively for directories, and a move relocates the very same nodes with text, version, policy and metadata unchanged. Copy and original share no mutable state: changing the text, policy or metadata of one never shows in the other.",
 ["inputs","histories"],"all trees, policies and metadata",
 "Tests compare the text of one or two copied files.",
 [V],[("copy / _clone_node / _clone_policy / move",V)],["copy","move","get_policy","get_node"])
p("C20","Python snippets get only the curated builtins, fresh for each run",
 "Every snippet runs with exactly the curated builtins plus those the host added, so names such as open, eval, exec and __import__ are unavailable by default, whatever extra globals are given and whatever earlier snippets did to their environment. Names a snippet defines are returned to the caller but are not visible to later snippets, and the executor's templates are never modified.",
 ["inputs","histories"],"all snippets, extra globals and sequences of runs",
 "Tests evaluate two expressions.",
 [PY],[("PythonExecutor.run",PY)],["PythonExecutor.run"])
p("C21","Dynamic nodes are produced on demand and never clobber real ones",
 "A provider-backed file is read by calling its provider on every read with the file's canonical path, metadata and filesystem, and a failing provider surfaces as a provider error. A provider-backed directory calls its loader once, when first needed, adds every provided entry that does not exist yet with its kind, text, metadata and policy, keeps entries that do exist, and stays unloaded if the loader fails.",
 ["inputs","fault_sequences","histories"],"all provider results, failures and access orders",
 "Tests load one directory and read one dynamic file.",
 [N,PR],[("ensure_loaded / instantiate_provided_node / VirtualFile.read",N)],["read_file","ls"],
 [("loader and loaded flag","lazy population state",N)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
