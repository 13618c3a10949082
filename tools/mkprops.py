import json
A="crates/aptos-language-server/src/"
def P(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    return d
T="The tests that build here cover only line-ending conversion; even the repository's full suite drives single handlers on a quiet, single-threaded database. "
ps=[
P("C01","Every request is answered exactly once",
 "From the completed handshake until exit the server sends, for every request it receives, exactly one response carrying that request's id, and never a response for an id that is not awaiting one. This includes requests that are cancelled by the client (before, while or after being processed), invalidated by an edit, retried, unknown, malformed, sent before loading has finished or sent after shutdown.",
 ["schedules","histories","fault_sequences"],"for every interleaving of worker threads, main loop, loader and client, and every legal message history including cancellation races and edits during processing",
 T+"Double, lost or misaddressed responses only appear when cancellation, retry, completion and edits interleave.",
 [A+"main_loop.rs",A+"handlers/dispatch.rs",A+"global_state.rs",A+"task_pool.rs"],
 [("pending-request table: register/complete/cancel",A+"global_state.rs"),("retry only when still pending",A+"main_loop.rs handle_task"),("panic and cancellation turned into responses",A+"handlers/dispatch.rs")],
 ["JSON-RPC messages leaving the server"]),
P("C02","An open document is exactly what the editor sent",
 "While a document is open, the text every server feature works on is exactly the text resulting from applying the client's notifications in order, whatever happens to the file on disk (rewritten, deleted, unreadable, reported changed by watchers, rescanned by a package reload). Full-text and ranged edits, several edits in one notification, any line endings and any negotiated position encoding are included, and notifications for other documents or repeated opens never disturb it.",
 ["histories","schedules","fault_sequences"],"for every edit history, interleaved with disk changes, watcher events, reloads and in-flight requests",
 T+"No test interleaves editor notifications with loader results for the same path.",
 [A+"handlers/notification.rs",A+"opened_files.rs",A+"main_loop.rs",A+"lsp/utils.rs"],
 [("open documents shadow loader results",A+"main_loop.rs load_files_into_vfs"),("edits applied in order to the kept text",A+"lsp/utils.rs apply_document_changes")],
 ["syntax-tree view, symbols and tokens answered for the document"]),
P("C03","At rest the server equals a freshly started one",
 "Once edits and file events have been delivered and the server is quiescent, every answer it gives is the one a server freshly started on the same files, settings and open documents would give. In particular closed documents fall back to the file on disk, created, modified, renamed and deleted files of the project's packages are reflected in other files' answers, and nothing of an earlier state lingers.",
 ["histories","schedules","inputs"],"for every history of opens, edits, closes, saves, disk changes with watcher events, reloads and reconfigurations",
 T+"Tests build one database from scratch; incremental maintenance across histories is never compared with a from-scratch run.",
 [A+"file_changes.rs",A+"reload.rs",A+"main_loop.rs","crates/base-db/src/change.rs","crates/base-db/src/lib.rs","crates/ide-db/src/lib.rs","crates/project-model/src/project_folders.rs"],
 [("pending changes applied to the incremental database",A+"file_changes.rs"),("package roots and dependency graph rebuilt on structure changes",A+"reload.rs")],
 ["answers of all read requests at quiescence"]),
P("C04","Each answer describes one state the client really had",
 "A successful answer to a request is the answer for one single combination of document and file contents that held at some instant between the server reading the request and sending the answer; it never mixes two versions of a text, a text with another text's line table or line endings, or two generations of the project. While no files are being scanned, a request the client sent after an edit is never answered from before that edit; during a scan edits wait for its end and answers may be about the earlier state.",
 ["schedules","histories"],"for every interleaving of edits with requests being computed on worker threads",
 T+"Requires an edit to land at a precise point of a computation on another thread.",
 [A+"global_state.rs",A+"handlers/request.rs",A+"file_changes.rs","crates/ide/src/lib.rs","crates/base-db/src/lib.rs"],
 [("immutable snapshot per request plus cancellation on change",A+"global_state.rs snapshot"),("edits applied before the next message is read",A+"main_loop.rs after_handle_event")],
 ["request and response pairs against a serial execution of the same history"]),
P("C05","The server always comes to rest and never deadlocks",
 "When the client stops sending, no fault is active and the client keeps reading, the server becomes idle after finitely much work: every request is answered, every progress begun is ended exactly once and properly nested per title, the last status it reports says it is quiescent, and loading requested by any earlier event has been carried out. An edit or cancellation never has to wait for an unrelated long computation to finish, and a slow or briefly stalled client only delays, never wedges, the server.",
 ["schedules","histories","fault_sequences"],"for every interleaving, every worker count, unfair schedules that starve one thread, bounded client buffers and client stalls",
 T+"Deadlocks, lost wake-ups and lost reload requests depend on the schedule.",
 [A+"main_loop.rs",A+"op_queue.rs",A+"reload.rs",A+"task_pool.rs",A+"lsp/utils.rs","crates/ide/src/lib.rs"],
 [("single-flight operation queue",A+"op_queue.rs"),("cancellation of stale snapshots before applying a change","crates/ide-db/src/lib.rs"),("status and progress reports",A+"main_loop.rs")],
 ["server messages and idleness"]),
P("C06","No client message and no file fault takes the server down",
 "Malformed parameters, unknown methods, unknown or stale documents, documents that are not files, notifications for files that are not open, out-of-range positions, non-UTF-8 or unreadable files, directories that vanish while being scanned, and responses the server did not ask for never end the server process or leave it unable to serve later well-formed requests. A request that cannot be served gets an error response of its own, and only that request is affected.",
 ["inputs","histories","fault_sequences"],"for every well-framed message sequence and every injected file-system error sequence",
 T+"Error paths and I/O faults are not exercised at all.",
 [A+"handlers/dispatch.rs",A+"main_loop.rs",A+"lsp/from_proto.rs",A+"global_state.rs","crates/project-model/src/lib.rs","crates/project-model/src/aptos_package/load_from_fs.rs"],
 [("panics of read-only handlers contained",A+"handlers/dispatch.rs"),("parameter errors become InvalidParams",A+"handlers/dispatch.rs parse")],
 ["liveness and later answers of the server"]),
P("C07","Handshake, shutdown and exit follow the protocol",
 "Before the initialize handshake completes nothing but it is processed; after shutdown is answered every further request is still answered, with InvalidRequest (a repeated shutdown may also be confirmed); the exit notification, or the loss of the client, ends the server in bounded time, successfully only when the exit notification was received. Exit also succeeds in bounded time while requests, loading or formatting are in progress.",
 ["schedules","histories","crash_points"],"for every instant at which shutdown, exit or a client disconnect arrives, including during loading, computation and formatting",
 T+"Needs the termination to hit arbitrary instants of concurrent work.",
 [A+"main_loop.rs",A+"bin/main.rs",A+"global_state.rs",A+"handlers/dispatch.rs"],
 [("shutdown flag checked before dispatch",A+"main_loop.rs on_request"),("snapshots cancelled and pools joined on drop",A+"global_state.rs Drop")],
 ["exit result, remaining threads, responses after shutdown"]),
P("C08","The project model follows the manifests on disk",
 "At rest, the packages, their source files, dependencies, named addresses and missing-dependency reports used for answers are those described by the manifests on disk of the packages found under the workspace folders when the server started or the folders last changed, and of the packages these depend on, however additions, removals and edits of manifests, overlapping reload requests and workspace-folder changes were interleaved. While some manifest cannot be parsed the previously loaded project keeps being served and the failure is reported, and once it parses again the new project is loaded and the report withdrawn. Downloaded (git) dependencies are resolved against but neither reported on nor renamed in.",
 ["histories","schedules","fault_sequences"],"for every history of manifest and folder changes overlapping with reloads in progress",
 T+"Reload races (a change arriving while a load is running) never occur in the tests.",
 [A+"reload.rs",A+"op_queue.rs",A+"main_loop.rs","crates/project-model/src/aptos_package/load_from_fs.rs","crates/project-model/src/dep_graph.rs","crates/project-model/src/project_folders.rs"],
 [("request queue keeps the latest request while one runs",A+"op_queue.rs"),("switch scheduled after a load",A+"main_loop.rs"),("dependency graph recreated after the scan",A+"reload.rs")],
 ["cross-package answers, diagnostics and status at quiescence"]),
P("C09","Formatting is safe whatever the formatter does",
 "A formatting request yields either edits that turn the document text it was computed for into exactly the formatter's output, or no edits because nothing changes, or an error or notice; a formatter that is missing, too old, fails, is killed, prints garbage or non-UTF-8, exits early, never reads its input or is slow never yields edits, never brings the server down and never delays edits or other requests. The formatter runs in the folder of the document, its input is exactly the document text with line feeds, and documents with CRLF line endings keep them.",
 ["fault_sequences","inputs","schedules"],"for every formatter behaviour, pipe capacity and interleaving with edits and other requests",
 T+"The formatter process is never run in tests; its failures and pipe interleavings need injection.",
 [A+"movefmt.rs",A+"handlers/request.rs",A+"handlers/dispatch.rs",A+"toolchain.rs"],
 [("dedicated formatting thread",A+"handlers/dispatch.rs on_fmt_thread"),("exit status and UTF-8 checks",A+"movefmt.rs")],
 ["formatting responses and concurrent responses"]),
P("C10","Positions and edits fit the client's text in every encoding",
 "All positions and ranges received and sent are interpreted in the negotiated position encoding against the client's own text, for texts with CRLF or LF endings and non-ASCII characters, also after the document's line endings or contents change while requests are in flight. Edits the server returns, applied by the client to the document version they were computed for, replace exactly the intended characters and keep the document's line endings.",
 ["inputs","configurations","schedules","histories"],"for every encoding, line-ending style and history that switches between them while requests run",
 T+"Line-ending style is kept outside the snapshot and only races expose a mismatch; the stable tests convert whole strings only.",
 [A+"lsp/to_proto.rs",A+"lsp/from_proto.rs",A+"line_index.rs",A+"file_changes.rs",A+"lsp/utils.rs","crates/stdext/src/line_endings.rs"],
 [("line table and endings combined per file",A+"global_state.rs file_line_index"),("endings recorded when text is normalised",A+"file_changes.rs")],
 ["ranges and text edits in responses"]),
P("C11","Every relevant file is watched and every event acted on",
 "At rest, each source file and manifest of the loaded local packages is covered by the active watching mechanism (the latest registration made with the client, or the server's own watcher), so that a creation, change or deletion reported for it is reflected in later answers without any other trigger. Events for open documents, unrelated files and several events for one file in one batch do no harm.",
 ["configurations","histories","schedules"],"for every watcher mode and client capability set, package layout and event history",
 T+"Watcher registration is not tested and only a client that filters events by the registered patterns notices gaps.",
 [A+"reload.rs",A+"handlers/notification.rs",A+"config.rs","crates/project-model/src/project_folders.rs","crates/project-model/src/aptos_package.rs"],
 [("watchers registered on each project switch",A+"reload.rs setup_client_file_watchers"),("watched entries handed to the loader","crates/project-model/src/project_folders.rs")],
 ["registration requests; answers after events delivered only through matching watchers"]),
P("C12","Configuration changes take effect, all of them and only them",
 "After the client announces a configuration change and answers the server's query, subsequent answers are those of a server started with that configuration, and the client is asked to refresh what the change affects; null, empty, partially invalid or erroneous answers keep the server running, invalid keys fall back to defaults, are reported, and the report disappears once corrected. Announcements racing with edits, loading or each other end in the last configuration answered.",
 ["histories","schedules","configurations"],"for every sequence of configuration values, validity and answer delays",
 T+"Live reconfiguration is not covered by any test.",
 [A+"handlers/notification.rs",A+"config/config_change.rs",A+"config/options.rs",A+"reload.rs"],
 [("configuration pulled from the client",A+"handlers/notification.rs handle_did_change_configuration"),("refresh on relevant differences",A+"reload.rs update_configuration")],
 ["answers, refresh requests and status after reconfiguration"]),
P("C13","Interrupted requests are retried or refused, never falsified",
 "When an edit or reload interrupts a running request, the outcome is a correct answer for a newer state or a refusal the protocol defines for it (content modified; for diagnostics a server cancellation asking to retrigger); when the client cancels, the outcome is a cancellation error or the complete answer. An interruption never surfaces as an empty, partial or default success or as an internal error, and empty default answers or failures to find a file occur only while the project is still being loaded.",
 ["schedules","histories"],"for every instant at which an edit, reload or cancellation hits a running request of every kind",
 T+"Cancellation unwinds the computation at arbitrary points that depend on the schedule.",
 [A+"handlers/dispatch.rs",A+"main_loop.rs",A+"handlers/request.rs","crates/ide/src/lib.rs"],
 [("cancellation recognised and mapped per request kind",A+"handlers/dispatch.rs"),("retry list",A+"main_loop.rs")],
 ["response codes and payloads"]),
P("C14","Stale follow-ups are rejected and edits carry their version",
 "A code action, inlay hint, code lens or completion item that is resolved after its document changed is never resolved into positions or commands for the old text or into edits that do not fit the new one: it is refused or returned unresolved, and resolving it against the unchanged document yields what it promised. Document edits are addressed to the version of the open document they were computed from, so that a client can reject them.",
 ["histories","schedules"],"for every interleaving of edits, closes and re-opens between obtaining and resolving an item",
 T+"Two-step request sequences with edits in between are not tested.",
 [A+"handlers/request.rs",A+"lsp/to_proto.rs",A+"lsp/ext.rs",A+"global_state.rs"],
 [("document version stored in the resolve data and compared",A+"handlers/request.rs"),("versioned document edits",A+"lsp/to_proto.rs")],
 ["resolve responses and workspace edits"]),
P("C15","Answers do not depend on scheduling, hashing or directory order",
 "For the same files, settings, open documents and requests the server's answers are identical in every run (lists whose order carries no meaning compared as sets, for projects in which no two modules share an address and a name): they do not depend on thread scheduling, the number of worker threads, hash seeds, the order in which directories are enumerated, in which files are loaded or in which documents are opened.",
 ["schedules","configurations"],"for every schedule, hash seed, directory enumeration order, load order and worker count",
 T+"A test process sees one order; hash-order dependences appear as rare flakes at best.",
 [A+"reload.rs","crates/project-model/src/aptos_package/load_from_fs.rs","crates/project-model/src/lib.rs","crates/base-db/src/lib.rs","crates/ide-db/src/search.rs","crates/ide/src/lib.rs"],
 [("sorted manifests and folder roots","crates/project-model/src/lib.rs"),("deterministic answer assembly",A+"lsp/to_proto.rs")],
 ["answers of all read requests across perturbed runs"]),
P("C16","A client that only re-pulls when told ends up right",
 "A client that supports refresh requests and re-requests diagnostics, semantic tokens, inlay hints and code lenses only when the server tells it to, when it edits the document itself, or when a refusal asks for it, displays at rest exactly what the server would answer then. This holds from start-up through edits in other files, disk changes, reloads and reconfiguration.",
 ["histories","schedules"],"for every history of changes and every interleaving of refreshes with pulls in flight",
 T+"Missed refreshes leave stale squiggles only under particular orders of loading and events.",
 [A+"main_loop.rs",A+"reload.rs",A+"handlers/dispatch.rs"],
 [("refresh after load and after file changes",A+"main_loop.rs after_handle_event"),("refresh on configuration change",A+"reload.rs update_configuration")],
 ["refresh requests and pulled results"]),
P("C17","The batch check reports every finding and the right exit code",
 "The command-line diagnostics run reports every error, warning and note of every source file of the selected packages that passes its filters, exactly once per package file, and its exit status says whether an error was among them, independently of file, directory and hash order. An unreadable or broken package does not hide the findings of the others.",
 ["schedules","configurations","fault_sequences"],"for every enumeration order, hash seed, set of packages and injected read fault",
 T+"The command-line entry points have no tests; order dependence needs controlled orders.",
 [A+"cli/diagnostics.rs",A+"cli/utils.rs","crates/ide-db/src/load.rs","crates/project-model/src/lib.rs"],
 [("walk over package roots and files",A+"cli/diagnostics.rs"),("error flag to exit code",A+"cli/diagnostics.rs")],
 ["process output and exit status"]),
P("C18","Only what the client declared is used",
 "The server sends refresh requests, progress creation and progress reports, watcher registrations and status notifications only to clients that declared the matching capability, with request ids never reused while pending and progress reported only under tokens it created. Answers use only optional features the client declared: snippets, label details, separate insert and replace ranges, location links, nested symbols, code action literals with deferred edits, versioned document edits and client-side commands. What it advertises in the handshake is what it then honours, including the negotiated position encoding and the semantic token legend.",
 ["configurations","histories"],"for every combination of client capabilities and every history",
 T+"Capability combinations are not tested; the offending message appears only in particular histories.",
 [A+"lsp/capabilities.rs",A+"main_loop.rs",A+"lsp/utils.rs",A+"reload.rs",A+"config.rs"],
 [("capability predicates",A+"lsp/capabilities.rs"),("gated sends",A+"main_loop.rs")],
 ["messages leaving the server and the handshake result"]),
P("C19","The editor extension keeps one live client per workspace",
 "Whatever the order in which start, stop, restart and dispose are triggered, by commands, configuration changes or failures, the editor extension never has two language clients running at once, ends in the state the last request asked for, and releases a client that failed to start. A debug-adapter download that is interrupted or fails never leaves a partial executable that later runs would use, nor keeps later runs from getting the current release.",
 ["schedules","fault_sequences","crash_points"],"for every interleaving of asynchronous lifecycle calls and every failing step of a download",
 "The extension has no tests.",
 ["editors/code/src/ctx.ts","editors/code/src/extension.ts","editors/code/src/dap_downloader.ts"],
 [("client field and start/stop sequence","editors/code/src/ctx.ts"),("download and rename steps","editors/code/src/dap_downloader.ts")],
 ["calls on the editor API and on the file system"]),
P("C24","The extension's commands, status and settings follow the live server",
 "From activation to disposal every command of the editor extension is registered exactly once and acts on the client that runs then, or says that none does or starts one; the status item shows what the running server last reported and its version, or that none runs. A server is launched with the settings in force, variables substituted, answers to its settings queries are those in force then, and it is told of every later change. The syntax tree view comes to show the tree of the active document's latest text, edits the extension applies were computed for the text they are applied to, tasks run with the settings in force, and a debug session is connected to the adapter launched for it. Neither restarts nor failures nor disposal leave listeners, views, commands or providers behind.",
 ["schedules","histories","fault_sequences"],"for every interleaving of lifecycle calls, settings changes, server reports and failures",
 "The extension has no tests.",
 ["editors/code/src/ctx.ts","editors/code/src/extension.ts","editors/code/src/config.ts","editors/code/src/client.ts","editors/code/src/bootstrap.ts","editors/code/src/commands.ts"],
 [("commands re-registered when the client's state changes","editors/code/src/ctx.ts updateCommands"),("status item","editors/code/src/ctx.ts setServerStatus"),("settings middleware and variable substitution","editors/code/src/config.ts"),("cleanup lists","editors/code/src/ctx.ts")],
 ["calls on the editor API, launch arguments and messages of the language client"]),
P("C23","Applying fixes to files in batch is safe",
 "A command-line run that applies quick fixes or organises imports comes to an end, changes only the selected files, gives the same files whatever the order in which packages and files are enumerated, keeps their line endings and leaves files that parsed parsing. At every instant, and so after a kill, a crash or a full disk, each source file holds either its previous text or a completely changed one; a failure to write is reported in the exit status and a completed run leaves no other files behind.",
 ["crash_points","fault_sequences","schedules","configurations"],"for every point at which the process stops, every free-space limit, enumeration order, hash seed and choice of fixes",
 T+"The command-line entry points have no tests; crash points and full disks cannot be produced by a unit test.",
 [A+"cli/diagnostics.rs",A+"cli/organize_imports.rs",A+"cli/utils.rs","crates/ide-db/src/load.rs"],
 [("fix application loop",A+"cli/diagnostics.rs apply_all_diagnostic_fixes"),("file replacement",A+"cli/utils.rs write_file_text")],
 ["every change of the files on disk, exit status"]),
P("C20","Parsing is lossless and total",
 "Every text, well-formed or not, is parsed without failure into a tree whose leaves concatenate to exactly that text.",
 ["inputs"],"for every input text","Tests sample a fixed corpus.",["crates/syntax/src"],[("event based parser","crates/syntax/src")],["syntax tree text"]),
P("C21","Name resolution and type inference follow the Move language",
 "Definitions, types and diagnostics computed for a program are those the Move language defines, so that valid programs show no errors and invalid ones show theirs.",
 ["programs"],"for every program","Tests sample hand-written snippets.",["crates/lang/src","crates/ide-diagnostics/src"],[("resolution and inference","crates/lang/src")],["diagnostics, definitions, hovers"]),
P("C22","Rename, quick fixes and import organisation preserve meaning",
 "Applying a rename, a quick fix, an assist or import organisation yields a program that parses and means the same (or has the reported problem removed), and changes every and only the places concerned.",
 ["programs"],"for every program and target","Tests sample hand-written snippets.",["crates/ide/src/rename.rs","crates/ide-db/src/assists.rs","crates/ide-diagnostics/src"],[("reference search and source edits","crates/ide-db/src")],["edited program texts"]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in ps: jsonschema.validate(p,s)
import os
for p in ps:
    for x in p['anchors']['files']:
        if not os.path.exists('/repo/'+x): print('missing',p['id'],x)
