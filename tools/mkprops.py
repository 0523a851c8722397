#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in git; this script is only its readable source)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SL = "crates/sync-lsp/src/"
ST = "crates/tinymist-std/src/"

prop("C01", "Wire framing round trip",
 "Any sequence of LSP or DAP messages the server writes to its output is read back, by the same wire reader, as exactly the same sequence of message texts followed by a clean end of stream. The declared content length is the exact byte length of the payload, whatever Unicode text the payload contains, and nothing but header and payload is ever put on the wire.",
 ["inputs", "histories"], "every finite sequence of messages with arbitrary Unicode payloads, read through any buffering of the byte stream",
 "The tests only (de)serialise five fixed JSON texts; none writes or reads a frame, let alone two in a row or a non-ASCII payload.",
 [SL+"msg.rs", SL+"lsp.rs", SL+"dap.rs"],
 [("frame writer", SL+"msg.rs: write_msg_text"), ("frame reader", SL+"msg.rs: read_msg_text"), ("typed message read/write", SL+"lsp.rs, dap.rs: Message::read/_read/write/_write")],
 ["bytes produced by Message::write", "messages returned by Message::read_lsp/read_dap"])

prop("C02", "Malformed wire input never crashes or is misread",
 "For every byte stream, reading the next message either yields the payload announced by a well-formed header block, reports a clean end of stream when the input ends before or inside the header block, or reports an error; it never panics or aborts. A header line without CRLF or without a 'name: value' separator, a missing, unparsable or unsatisfied content length, a non-UTF-8 payload and a payload that is not a message are errors; other headers are ignored, header names are case-insensitive, and the last content length wins.",
 ["inputs", "fault_sequences"], "every byte stream, including truncated, corrupted and adversarial ones",
 "No existing test feeds the frame reader anything; the quantifier is over all byte strings.",
 [SL+"msg.rs", SL+"lsp.rs", SL+"dap.rs"],
 [("frame reader", SL+"msg.rs: read_msg_text"), ("payload decoder", SL+"lsp.rs/dap.rs: Message::_read")],
 ["io::Result<Option<Message>> of Message::read_lsp/read_dap"])

prop("C03", "Every request is answered exactly once, with its own id",
 "For each request received from the client exactly one response carrying that request's id is produced when its outcome becomes known: the handler's value as a success or the handler's error with its code and message as a failure. A request that was never received, was already answered or was cancelled produces no response, and answering one request never changes whether any other request is pending.",
 ["histories", "inputs", "schedules"], "every history of receiving, completing (at once, later, or with a rejection), double-completing and cancelling requests with integer or string ids",
 "No existing test drives the request queue or the client object; the guarantee ranges over all interleavings of registrations and completions.",
 [SL+"req_queue.rs", SL+"server.rs", SL+"lsp.rs", SL+"server/lsp_srv.rs"],
 [("incoming queue", SL+"req_queue.rs: Incoming::register/complete/cancel/has_pending/is_completed"), ("answering", SL+"server.rs: LspClient::register_request/respond_result/respond_any_result/respond/schedule/schedule_tail"), ("direct answering", SL+"server/lsp_srv.rs: LspClient::respond_lsp")],
 ["messages received from the connection's outgoing channel"],
 [("pending incoming requests", "ids received and not yet answered or cancelled", SL+"req_queue.rs: Incoming.pending")])

prop("C04", "LSP session lifecycle is enforced",
 "Before a successful initialize every other request is refused as not initialized; the initialize request is accepted at most once (a malformed one is refused and may be retried); requests reach handlers only after the initialized notification and, once a shutdown request has been handled, every further request is refused as invalid. Notifications outside the ready phase are ignored without failing the session, an initialized notification outside the initializing phase changes nothing, and the session ends exactly on the exit notification or when the connection closes.",
 ["histories", "inputs"], "every history of requests, notifications and responses, with any methods and parameters, in any order",
 "The tests never start a server; the guarantee ranges over all message histories.",
 [SL+"server/lsp_srv.rs", SL+"server.rs"],
 [("request gate", SL+"server/lsp_srv.rs: LsDriver::on_lsp_request"), ("notification gate", SL+"server/lsp_srv.rs: LsDriver::on_notification"), ("main loop", SL+"server/lsp_srv.rs: LsDriver::start_"), ("state", SL+"server.rs: State, LsDriver::ready")],
 ["responses on the connection", "handler invocations"],
 [("lifecycle phase", "uninitialized, initializing, ready, shutting down", SL+"server.rs: State")])

prop("C05", "Server-to-client requests are matched to their own reply",
 "Every request the server sends carries an id no other request of the session has used; a reply runs exactly the handler registered for that id, once, and hands it the reply received. A reply with an unknown or already answered id runs no handler and disturbs no other outstanding request.",
 ["histories", "inputs"], "every history of sending requests and receiving replies with arbitrary ids, in any order",
 "No existing test sends a request to a client; the guarantee is over all histories of sends and replies.",
 [SL+"req_queue.rs", SL+"server.rs", SL+"server/lsp_srv.rs", SL+"server/dap_srv.rs"],
 [("outgoing queue", SL+"req_queue.rs: Outgoing::alloc_request_id/register/complete"), ("sending", SL+"server/lsp_srv.rs: LspClient::send_lsp_request_"), ("completion", SL+"server.rs: LspClient::complete_lsp_request/complete_dap_request")],
 ["requests on the connection", "handler invocations"])

prop("C06", "DAP session gating and sequence echo",
 "In a debug session each request gets exactly one response whose request sequence number equals the request's own, for every sequence number; requests before initialization are refused, a second initialize is refused, unknown commands are refused as unknown, and after a disconnect has been handled every request is refused. Events sent by the client reach their handlers only in the ready phase and otherwise are ignored without failing the session.",
 ["histories", "inputs"], "every history of debug-adapter requests, events and responses with any sequence numbers and commands",
 "No existing test runs a debug session; the guarantee ranges over all histories and all sequence numbers.",
 [SL+"server/dap_srv.rs", SL+"server.rs", SL+"msg.rs"],
 [("request gate", SL+"server/dap_srv.rs: LsDriver::on_request"), ("event gate", SL+"server/dap_srv.rs: LsDriver::on_event"), ("sequence numbers", SL+"msg.rs: RequestId::dap, From<i32>")],
 ["responses on the connection", "handler invocations"])

prop("C07", "Session mirror records exactly what was consumed",
 "When input is mirrored, the bytes written to the mirror are exactly the bytes the reader consumed from the input, each once and in order, so the mirror replays the same session. A failing mirror never loses, alters or fails the input stream.",
 ["inputs", "fault_sequences"], "every input stream, every interleaving of reads, peeks and partial consumption, and every mirror write failure",
 "No existing test uses mirroring; the guarantee ranges over all read/consume schedules and faults.",
 [SL+"transport.rs"], [("mirroring reader", SL+"transport.rs: MirrorWriter (Read, BufRead)"), ("wiring", SL+"transport.rs: with_stdio_transport_impl")],
 ["mirror file content against stdin content"])

prop("C08", "Fingerprint text and integer codecs are exact",
 "Converting a 128-bit fingerprint to its integer form or its textual id and back yields the same fingerprint, so distinct fingerprints have distinct texts. Decoding a text that is not the encoding of a fingerprint reports an error; no text makes decoding crash.",
 ["inputs"], "all 2^128 fingerprints and all strings",
 "One unit test round-trips four fingerprints with a zero or one in each half; malformed texts are not tried.",
 [ST+"hash.rs"], [("integer codec", ST+"hash.rs: Fingerprint::from_u128/to_u128/from_pair/lower32"), ("text codec", ST+"hash.rs: Fingerprint::as_svg_id/try_from_str, serde impls")],
 ["return values", "serde (de)serialisation"])

prop("C09", "Sharded fingerprint map behaves as one map",
 "A sharded fingerprint map can be created for every non-zero shard request and then holds a power-of-two number of shards, at most the maximum. Each fingerprint always maps to one existing shard, so what is stored under a fingerprint is found again under exactly that fingerprint and all stored items come back exactly once when the map is drained.",
 ["inputs", "histories"], "every shard size, every fingerprint and every history of insertions",
 "The only test looks at the default shard size of the machine at hand.",
 [ST+"adt/fmap.rs"], [("construction", ST+"adt/fmap.rs: FingerprintMap::new/default_shard_size"), ("routing", ST+"adt/fmap.rs: FingerprintMap::shard/contains_key/as_mut_slice/into_items")],
 ["shard identity and contents"])

prop("C10", "Textual path normalisation is faithful",
 "Rendering a path whose names are valid Unicode with unix slashes preserves its sequence of components exactly (apart from current-directory markers), is idempotent, keeps absolute paths absolute and never yields an empty text. Lexical normalisation removes every '.' and resolves every '..' against the component before it without ever climbing above the root, and is idempotent.",
 ["inputs"], "every path, of any depth and mix of '.', '..', empty and ordinary components",
 "Tests compare a few dozen fixed paths; the guarantee is over all component sequences.",
 [ST+"path.rs", ST+"fs/paths.rs"], [("slash rendering", ST+"path.rs: unix_slash"), ("lexical normalisation", ST+"fs/paths.rs: normalize_path")],
 ["returned text/path"])

prop("C11", "Relative path difference leads back to the target",
 "`diff(target, base)`, the way from its second argument to its first: when one is produced, joining it to the base and cleaning the result yields the cleaned target; for two absolute paths one is always produced. Paths that mean the same location give the same answer whether or not they contain '.' and '..' components.",
 ["inputs"], "every pair of paths",
 "No existing test calls the path difference.",
 [ST+"path.rs"], [("path difference", ST+"path.rs: diff, clean_for_diff")], ["returned path"])

prop("C12", "File replacement helpers are all-or-nothing",
 "The atomic write leaves the destination either with exactly its old content or with exactly the complete new content at every point, including every point at which a step fails or the process dies; on success it holds the new content with the old permission bits, on failure it is untouched and no temporary file is left. The write-if-changed and append helpers end with exactly the given content, respectively the old content followed by the new, and the former does not touch a file that already has the content.",
 ["crash_points", "fault_sequences", "inputs"], "every content, every prior file state, and every failing step or crash point",
 "Two unit tests write one fixed content once with no fault; crash points and failing steps are not explored.",
 [ST+"fs/paths.rs"], [("atomic write", ST+"fs/paths.rs: write_atomic"), ("other writers", ST+"fs/paths.rs: write_if_changed, append, write")],
 ["content, mode and siblings of the destination"])

prop("C13", "File locks grant exactly the requested access",
 "An exclusive lock is granted only while nobody else holds the file and a shared lock only while nobody holds it exclusively; blocking requests wait, non-blocking requests report contention as 'not acquired', and any other locking error is reported rather than treated as success. Only file systems that do not support locking are exempt, an existing file's content is never changed by opening it for locking, and releasing the handle releases the lock.",
 ["schedules", "fault_sequences", "histories"], "every order of lock requests by any number of holders and every error the operating system can report",
 "There is no test of file locking at all.",
 [ST+"fs/flock.rs"], [("lock protocol", ST+"fs/flock.rs: acquire, try_acquire"), ("opening", ST+"fs/flock.rs: Filesystem::open*, try_open*"), ("system mapping", ST+"fs/flock.rs: sys::*"), ("release", ST+"fs/flock.rs: Drop for FileLock")],
 ["who holds the lock", "returned Ok/Err/None"])

prop("C14", "Localized message substitution is exact",
 "Formatting a message replaces every placeholder naming a given argument by that argument's text and leaves every other character of the message unchanged and in order, including text right after a placeholder, unknown placeholders and unbalanced braces. A key without a translation yields the built-in message.",
 ["inputs"], "every message text, argument list and translation table",
 "No existing test formats a message with arguments.",
 ["crates/tinymist-l10n/src/lib.rs"], [("substitution", "crates/tinymist-l10n/src/lib.rs: t_with_args"), ("lookup", "crates/tinymist-l10n/src/lib.rs: find_message, t_without_args, set_locale")],
 ["returned message"])

prop("C15", "Translation catalogue updates lose nothing",
 "Updating a translation catalogue with the set of used messages keeps every translation of a used message, drops exactly the unused messages and sets the English text of each used one. Writing a catalogue and reading it back yields the same messages, languages and texts.",
 ["inputs", "histories"], "every catalogue and every set of used messages",
 "No existing test touches the catalogue code.",
 ["crates/tinymist-l10n/src/lib.rs"], [("update", "crates/tinymist-l10n/src/lib.rs: update_translations"), ("text form", "crates/tinymist-l10n/src/lib.rs: serialize_translations, deserialize, load_translations")],
 ["catalogue contents"])

prop("C16", "Requests are dispatched to exactly their handler",
 "In the ready phase every request, command, resource query and notification is handed, with its own id and parameters, to exactly the handler registered for its name, and to no other; an event of the program's own, to the one registered for its type. An unknown name is answered as method not found, parameters that do not decode are answered with an error and never crash the server, and no request is dropped.",
 ["inputs", "histories"], "every name and parameter value, including missing and malformed command arguments",
 "No existing test dispatches a request; the guarantee ranges over all names and JSON parameters.",
 [SL+"server.rs", SL+"server/lsp_srv.rs", SL+"server/dap_srv.rs"],
 [("requests", SL+"server/lsp_srv.rs: LsDriver::on_lsp_request"), ("commands", SL+"server/lsp_srv.rs: LsDriver::on_execute_command"), ("resources", SL+"server.rs: LsDriver::get_resources"), ("notifications", SL+"server/lsp_srv.rs: LsDriver::on_notification")],
 ["responses on the connection", "handler invocations"])

prop("C17", "Lazily computed query results are computed once and stable",
 "A lazily computed query result runs its computation at most once, every reader sees the same value or the same error from then on, and a result created with a value never runs a computation. Reading without computing never triggers the computation.",
 ["histories"], "every history of construction and reads with succeeding or failing computations",
 "No existing test uses the query cell.",
 [ST+"concepts/query.rs"], [("query cell", ST+"concepts/query.rs: QueryRef::compute_with_context, with_value, with_context, get_uninitialized")], ["returned references", "number of computations"])

prop("C20", "Semantic token deltas reconstruct the new tokens",
 "Applying the edits of a semantic-token delta to the previous token array yields exactly the new token array, for any two arrays. The edits never reach outside the previous array and identical arrays give no edit.",
 ["inputs"], "every pair of token arrays",
 "Snapshot tests (not runnable here) look at full tokens of sample documents, not at deltas.",
 ["crates/tinymist-query/src/semantic_tokens_delta.rs"], [("delta", "crates/tinymist-query/src/semantic_tokens_delta.rs: token_delta")], ["SemanticTokensEdit list"])

prop("C21", "Editor positions and byte offsets convert exactly",
 "Editor positions count lines (as typst breaks them) and, within a line, UTF-16 code units or bytes, by the negotiated encoding. Every offset at a character boundary converts to the line it is in and the units before it there; offsets outside a line break convert back to themselves. Every position converts without a panic: one past the end of its line means the end of that line before its break, one past the last line means the end of the document, one at a character boundary means exactly that place, and one inside a character means nothing or some place of its line. Ranges convert by both ends.",
 ["inputs"], "every document text, offset, position and encoding",
 "Unit tests cover a handful of positions in three short texts.",
 ["crates/tinymist-analysis/src/location.rs"], [("conversion", "crates/tinymist-analysis/src/location.rs: to_typst_position, to_lsp_position, to_typst_range, to_lsp_range")], ["returned offset/position"])

prop("C22", "Page ranges parse and print consistently",
 "Every valid page range prints to a text that parses back to the same range. A text parses only if it is a page number, or a range with a start or an end whose end is not before its start, with all page numbers at least one; everything else is an error and nothing panics.",
 ["inputs"], "every string and every pair of optional page numbers",
 "There is no test of page ranges.",
 ["crates/tinymist-task/src/primitives.rs"], [("parser", "crates/tinymist-task/src/primitives.rs: FromStr for Pages, parse_page_number"), ("printer", "crates/tinymist-task/src/primitives.rs: Display for Pages")], ["parsed range", "printed text"])

prop("C23", "Unsaved editor buffers take precedence over files",
 "Reading a file returns the most recent in-memory content given for it if there is one, otherwise the most recent content reported by the file watcher if there is one, otherwise what is on disk. Adding or removing the content of one file never changes what is read for another, and removing an in-memory file uncovers what lies below.",
 ["histories", "inputs"], "every history of adding, replacing, removing and clearing in-memory files and of watcher change sets",
 "The virtual file system has one compile-time test only.",
 ["crates/tinymist-vfs/src/overlay.rs", "crates/tinymist-vfs/src/notify.rs", "crates/tinymist-vfs/src/snapshot.rs", "crates/tinymist-vfs/src/resolve.rs"],
 [("overlay", "crates/tinymist-vfs/src/overlay.rs: OverlayAccessModel"), ("watcher layer", "crates/tinymist-vfs/src/notify.rs: NotifyAccessModel::notify/content"), ("path resolution", "crates/tinymist-vfs/src/resolve.rs: ResolveAccessModel")], ["content read through the access model"])

prop("C24", "Workspace identities are stable and resolve to their own root",
 "Mounting the same workspace root always gives the same identity, different roots give different identities, and an identity always resolves back to the root it was made for. A file identity made for a workspace, an untitled document, a rootless document or a package is recognised as exactly that kind.",
 ["histories", "inputs"], "every history of mounting roots, in any textual form",
 "The only test in this file is empty.",
 ["crates/tinymist-vfs/src/path_mapper.rs"], [("interner", "crates/tinymist-vfs/src/path_mapper.rs: WorkspaceResolver::workspace_id, WorkspaceId::path"), ("classification", "crates/tinymist-vfs/src/path_mapper.rs: WorkspaceResolver::resolve, from_package_name")], ["identity and root"])

prop("C25", "Resource paths survive being stored",
 "A resource path written to text and read back is the same resource path, for every path a user or the project can name. A text without a scheme and a path is rejected, and turning a stored file path back into a system path gives the file it was made from.",
 ["inputs"], "every resource path and every text",
 "There is no test of resource paths.",
 ["crates/tinymist-task/src/primitives.rs"], [("text codec", "crates/tinymist-task/src/primitives.rs: Display/FromStr for ResourcePath"), ("system paths", "crates/tinymist-task/src/primitives.rs: from_user_sys, to_abs_path, to_rel_path")], ["parsed resource path"])

prop("C26", "Project lock file updates are conservative",
 "Recording a document, task or route in the project lock replaces the entry with the same identity or adds one, and keeps every other entry; if the identity was there once at most, it is there exactly once then, and found by it. A commit applies all its changes in order. A lock file that cannot be decoded, or whose version is newer or cannot be compared, is never overwritten; an update whose change fails or whose file cannot be locked or read writes nothing; a lock whose text would stay the same is not rewritten; and what an update that succeeds wrote reads back as the changed lock. The file is changed only under its exclusive lock.",
 ["histories", "inputs", "fault_sequences"], "every lock content, every history of updates, and every failing step before the file is written",
 "There is no test of the lock file.",
 ["crates/tinymist-project/src/lock.rs"], [("entry updates", "crates/tinymist-project/src/lock.rs: LockFile::replace_document/replace_task/replace_route"), ("file update", "crates/tinymist-project/src/lock.rs: LockFile::update")], ["lock entries", "writes to the lock file"])

prop("C27", "The file watcher reports every lasting change",
 "Once the watcher events for a file and the rechecks they led to are handled, the consumer knows exactly what the file was when it was read last, its content or the error, also when the file was removed or emptied for good. A removal or truncation that is undone before its recheck (50 ms later at the earliest) is not reported, and an unchanged file is not reported again. Every dependency that is handed over is read at once, and watched from then on if it is a file, also when a removal had ended watching it; what is no longer a dependency is unwatched, and forgotten only after thirty handovers without it. An upstream update is handed on with the changes found for the files it names. Without a system watcher, each handover sends the content of every dependency.",
 ["histories"], "every history of changes to a watched file and of watcher events",
 "The module's own documentation says it is untested.",
 ["crates/tinymist-project/src/watch.rs"], [("change filter", "crates/tinymist-project/src/watch.rs: NotifyActor::notify_entry_update"), ("recheck", "crates/tinymist-project/src/watch.rs: NotifyActor::recheck_notify_event")], ["events sent to the consumer"])

prop("C28", "Document edits keep the server's text equal to the client's",
 "After an open and any sequence of incremental or full changes whose ranges name places in order (positions past the end of a line mean its end), the text the server holds for a document is the client's text, in the negotiated position encoding, and exactly these texts are what the compiler was told to read instead of the files, also after a project reload. A change to a document that is not open is reported as an error and changes nothing, closing a document withdraws exactly that document, a query of a document sees its current text, and moving the focus changes no document.",
 ["histories", "inputs"], "every history of open, change and close notifications for any documents",
 "No runnable test applies a document change.",
 ["crates/tinymist/src/input.rs", "crates/tinymist/src/lsp.rs", "crates/tinymist/src/project.rs", "crates/tinymist-project/src/compiler.rs"], [("document store", "crates/tinymist/src/input.rs: create_source, edit_source, remove_source, query_source"), ("notifications", "crates/tinymist/src/lsp.rs: did_open, did_change, did_close"), ("handing over", "crates/tinymist/src/project.rs: reload_projects; crates/tinymist-project/src/compiler.rs: apply_memory_changes")], ["memory events", "stored document text"])

prop("C29", "Compilation results are committed in revision order",
 "Each project commits compilation results in revision order: a result that is not newer than the committed one changes nothing; a newer one is committed with its document, unless it failed, in which case the last successful document stays, and its dependencies are handed to the watcher together with the other projects'. Only results of the project's own instance are committed, not those of a removed project of the same name. A compilation starts only when there is a reason and an active entry, works on a snapshot of the current revision and consumes the reasons. Every change of the entry, inputs, fonts, in-memory files or files on disk gives the projects it changes a newer revision and a reason, and no other reason is lost. In-memory changes reach every project in the order they were made, also when one has to wait for the file watcher.",
 ["schedules", "histories"], "every order in which changes arrive, compilations start and finish, and watcher answers arrive",
 "No existing test runs the project compiler with results arriving out of order.",
 ["crates/tinymist-project/src/compiler.rs", "crates/tinymist-world/src/world.rs"], [("commit", "crates/tinymist-project/src/compiler.rs: ProjectInsState::process_compile, ProjectCompiler::process_inner"), ("start", "crates/tinymist-project/src/compiler.rs: ProjectInsState::may_compile, CompileReasons"), ("revisions", "crates/tinymist-world/src/world.rs: CompilerUniverse::increment_revision, RevisingUniverse"), ("removal", "crates/tinymist-project/src/compiler.rs: restart_dedicate, remove_dedicates")], ["committed document and revision", "dependencies handed to the watcher", "files each project reads"])

prop("C30", "Caches never serve stale file content",
 "After an in-memory or watcher change to a file, the next read of every file identity that maps to it returns the new content, while files not affected keep their cached content. A view taken before the change keeps reading the old content.",
 ["histories"], "every history of reads, changes and snapshots",
 "The virtual file system has one compile-time test only.",
 ["crates/tinymist-vfs/src/lib.rs"], [("invalidation", "crates/tinymist-vfs/src/lib.rs: RevisingVfs::invalidate_path/invalidate_file_id/map_shadow/notify_fs_changes"), ("path map", "crates/tinymist-vfs/src/lib.rs: PathMap::insert/get"), ("entries", "crates/tinymist-vfs/src/lib.rs: EntryMap::slot")], ["content read"])

prop("C40", "The io threads deliver every message and then stop",
 "Every message the reader decodes is delivered to the server, in order, up to and including the first exit notification (LSP), the end of the input or its first error; the reader then stops. Every message the server sends is written to the output, in order, until the output fails, and the writer stops when no sender is left. Finishing the transport (join, join_write, the end of a program run by with_stdio_transport that succeeded) waits until all of this is written and reports an error of a thread; join reports an error of the input at once.",
 ["schedules"], "every schedule of the reader, writer and server threads",
 "Tests run no transport; the guarantee is over all thread schedules.",
 [SL+"transport.rs"], [("threads", SL+"transport.rs: io_transport, IoThreads::join/join_write, with_stdio_transport_impl"), ("exit", SL+"lsp.rs: Notification::is_exit")], ["messages delivered, bytes written, result of finishing"])

prop("C41", "Incremental compilation equals a compilation from scratch",
 "The document, diagnostics and rendered preview produced after any sequence of edits equal those of a fresh compilation of the final text.",
 ["histories", "programs"], "every document and edit sequence",
 "Tests compile sample documents; the guarantee is over all programs and edit histories.",
 ["crates/tinymist-project/src/compiler.rs", "crates/typst-preview/src"], [("compiler driver", "crates/tinymist-project/src/compiler.rs"), ("preview", "crates/typst-preview/src")], ["document and preview"])

prop("C42", "Language features answer about the text the user sees",
 "Go-to-definition, references and rename name exactly the occurrences that the language's scoping binds to the same definition, and applying a rename or a formatting edit keeps the meaning of the document.",
 ["programs", "inputs"], "every document and cursor position",
 "Snapshot tests cover sample documents only.",
 ["crates/tinymist-query/src"], [("analysis", "crates/tinymist-query/src/analysis"), ("rename", "crates/tinymist-query/src/rename.rs")], ["responses"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
