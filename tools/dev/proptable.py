T = "TLA+ specification checked with TLC; every transition of the state graph (and random deeper behaviours) replayed into the real code"
TP = "TLA+ specification of the language rule checked with TLC; every program of the bounded model rendered as Ruby and the real server's answers compared with the specification's"
HOOKS = dict(guard="cargo feature verif-hooks of the ruby-fast-lsp package (off by default)",
             enable="harness_hooks/Cargo.toml depends on /repo with features = [\"verif-hooks\"]",
             source_commits=["eccb064"])
NOT_APPLICABLE = []
PROPS = [
 dict(id="P01", title="Project indexing admission: bounded, exclusive, prioritised and fair",
  statement="At no time do more than the configured number of project indexing generations run, and never two for the same project. The next one admitted is the oldest waiting generation of the best priority (the focused project counting as top priority) whose project is not running, except that background work that could run is passed over at most once in a row; cancelled or abandoned waiters leave the queue. A waiter that has become able to proceed is always woken.",
  over=["schedules", "histories"], forall="for every order of registering, focusing a project, cancelling, abandoning, admitting and releasing, and every order in which waiting tasks are run",
  why="Tests sample a handful of admission orders; overtaking, a forgotten wake-up or a leaked slot needs a particular interleaving of cancel, focus change and release.",
  files=["src/indexing_scheduler.rs"], mech=[("admission loop of a waiting generation", "src/indexing_scheduler.rs IndexingAdmission::wait"), ("choice of the next generation", "src/indexing_scheduler.rs best_admissible_entry_index_with_fairness"), ("leaving the queue / releasing the slot", "src/indexing_scheduler.rs Drop of QueueRegistration and IndexingPermit")],
  observe=["IndexingScheduler::snapshot", "outcome and wake-up of each waiting task"],
  technique=T, note="Exhaustive over the bounded model (projects, priorities, tickets of Scheduler_graph.cfg) and its replay; liveness and larger bounds in the thorough tier; random longer behaviours above that."),
 dict(id="P02", title="Indexing resources: claimed together, never oversubscribed, always returned",
  statement="CPU lanes, task slots, transient memory and I/O slots are claimed all together or not at all, their sums never exceed the limits, and each claim is returned exactly once whether the work completes, fails or is dropped. Among requests that fit, the oldest of the best priority starts first (background passed over at most once in a row), whole-project parallel work of other projects waits while the focused project's navigation build is pending, and a request that could never fit is refused. Waiting work that fits the free budget is always woken.",
  over=["schedules", "histories"], forall="for every order of submitting, focusing, cancelling, dropping, failing and completing work of every claim size, and every order in which waiting tasks run",
  why="Oversubscription, a claim returned twice, or a parked request that fits needs a specific mix of claim sizes and task order.",
  files=["src/indexing_resources.rs"], mech=[("admission of a claim", "src/indexing_resources.rs IndexingResourceGovernor::acquire"), ("choice among the requests that fit", "src/indexing_resources.rs request_fits_available, best_admissible_entry_index"), ("return of a claim", "src/indexing_resources.rs Drop of ActiveResourceLease")],
  observe=["IndexingResourceGovernor::snapshot", "outcome and wake-up of each waiting task"],
  technique=T, note="Exhaustive over the bounded model and its replay; random longer behaviours with larger limits above that."),
 dict(id="P03", title="Shared work: one producer per key, failures retried, retention bounded",
  statement="Concurrent requests for the same key share one producer and all get its outcome; a success is served again without producing until it is dropped for room, a failure is reported to everyone who waited and never served to a request made afterwards. The finished results kept never exceed the entry and weight limits, the oldest started being dropped first and work in progress never. Giving up waiting neither stops the work nor loses the result, and a panicking producer is a failure.",
  over=["schedules", "histories"], forall="for every interleaving of requests, completions, failures, panics and abandoned waits over several keys and every limit",
  why="Double production, a served stale failure or a lost wake-up depends on the exact order of completion, retry and eviction.",
  files=["src/single_flight.rs"], mech=[("flight admission and completion", "src/single_flight.rs get_or_try_init"), ("eviction", "src/single_flight.rs evict_completed_to_limits")],
  observe=["results seen by each caller", "number of producer runs", "snapshot counters"],
  technique=T, note="Exhaustive over the bounded model for three asynchronous variants and the blocking one; random longer behaviours; a threaded stress part whose outcomes the specification's invariants judge."),
 dict(id="P04", title="Indexing status is monotonic, generation-exact and terminal once",
  statement="Only the newest indexing generation of a project can change its status; within it phases never go back, a phase's completed count never shrinks and its total never changes, and after ready, failed or cancelled nothing changes until a new generation begins. Every published change has a larger sequence number, starting a generation cancels the previous one, and refused updates leave the status as it was.",
  over=["histories"], forall="for every sequence of beginning generations, progress reports of any generation and phase, failures and cancellations",
  why="Late reports of a superseded generation and repeated terminal events come in orders the tests do not enumerate.",
  files=["src/indexing_status.rs"], mech=[("progress reports", "src/indexing_status.rs ProjectIndexingStatus::transition"), ("terminal events", "src/indexing_status.rs fail, cancel, cancel_current"), ("new generation", "src/indexing_status.rs begin_run")],
  observe=["ProjectIndexingStatus::snapshot", "IndexingRun::is_cancelled"],
  technique=T, note="Exhaustive over three bounded configurations of phases, generations and counters; random longer behaviours above that."),
 dict(id="P05", title="Navigation requests during indexing are answered exactly once, never lost",
  statement="A request waiting for an identifier during indexing is answered when that identifier was processed, when its stage ended, or when the generation was cancelled or replaced, and is woken as soon as one of these is so. Work for one identifier is done at most once per generation and stage however many requests ask for it, the outstanding identifiers of a stage are bounded with further ones turned away, and events of an older generation change nothing.",
  over=["schedules", "histories"], forall="for every order of requests, coordinator pick-ups, completions, stage ends, cancellations and new generations, and every order in which waiting requests run",
  why="A lost wake-up or double pick-up needs a request arriving between particular coordinator steps.",
  files=["src/navigation_demand.rs"], mech=[("admission", "src/navigation_demand.rs request"), ("coordinator steps", "src/navigation_demand.rs drain, claim_if_requested, complete_keys, complete_stage, cancel_generation"), ("waiting", "src/navigation_demand.rs NavigationDemandTicket::wait")],
  observe=["answer and wake-up of each waiting request", "identifiers handed to the coordinator"], hook="NavigationDemands in src/verif_hooks.rs (the controller is crate-private)",
  technique=T, note="Exhaustive over two bounded configurations; random longer behaviours including ones that fill the queue to its real bound."),
 dict(id="P06", title="The on-disk product cache never serves anything but what was published",
  statement="A lookup returns exactly the bytes last published under that key or reports them absent, whatever happened to the files in between: damage, truncation, replacement by another product, or a process dying at any point of a publication. At most one process produces a missing key at a time while others wait and then see its result, also if the producer dies or gives up. After a publication the stored entries and bytes are within the limits again, across restarts, least recently published first to go.",
  over=["crash_points", "histories", "fault_sequences", "schedules"], forall="for every interleaving of lookups, publications and abandonments of several processes, every damage to a stored file and every point at which a publishing process can die",
  why="Tests try single corruptions and one crash shape; the guarantee spans every byte, system call and process interleaving.",
  files=["src/persistent_cache.rs"], mech=[("lookup or reserve under locks", "src/persistent_cache.rs lookup_or_reserve_product"), ("atomic publication", "src/persistent_cache.rs publish"), ("integrity envelope", "src/persistent_cache.rs decode of the envelope"), ("limits", "src/persistent_cache.rs ensure_accounting, cleanup_to_limits")],
  observe=["result of each lookup", "files on disk"],
  technique=T + "; crash points enumerated at every file-system call of a publication with an LD_PRELOAD stand-in", note="Exhaustive over bounded two-process and eviction models; every byte of sample products flipped; every mutating system call of a publication used as a crash point."),
 dict(id="P07", title="Every constant reference resolves to exactly what Ruby's lookup finds",
  statement="Go to definition on any part of a constant path, in any position of a program (superclass, mixin, argument, body, header of a class, top level), leads to the declarations of the namespace or constant that the language's lexical lookup finds from there, and to nothing else; where the lookup finds nothing, there is no definition and the constant is reported unresolved, and it is reported only there. Declarations count however they are written: nested, compact, absolute, by =, ||= or multiple assignment.",
  over=["programs", "inputs"], forall="for every arrangement of nested, compact, reopened and absolute declarations over several files and every reference in them",
  why="The resolution depends on combinations of nesting, reopening, compact and absolute names across files; the tests sample single shapes.",
  files=["crates/ruby-analysis/src/engine/resolution.rs", "crates/ruby-analysis/src/indexer/fact_collector/mod.rs", "src/query/definition.rs"],
  mech=[("lookup", "crates/ruby-analysis/src/engine/resolution.rs resolve_constant_in_context"), ("facts", "crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs, analysis_indexer.rs"), ("query", "src/query/definition.rs find_constant_definitions_by_path"), ("diagnostics", "src/query/diagnostics.rs get_unresolved_diagnostics")],
  observe=["textDocument/definition", "textDocument/publishDiagnostics"],
  technique=TP, note="Random programs of the Const.tla family (three or four blocks, headers and values written as name, path or ::Name, up to three-part references), thousands per run, each rendered as Ruby in 89 syntactic contexts over several files and opened in the real server; the spec was validated against ruby 3.2. Lookups through ancestors or aliases and the scopes of compact headers are pinned known findings."),
 dict(id="P08", title="References, highlights and renames of a constant are exactly its occurrences",
  statement="Find references, document highlight and rename on a class, module or constant name cover precisely the occurrences that resolve to that namespace or constant: each exactly once, in every file, at the exact range of the name, and no occurrence of another namespace that happens to have the same name. Asking from any occurrence gives the same answer.",
  over=["programs", "inputs"], forall="for every arrangement of declarations and references of same-named namespaces at different nestings over several files, asked from every occurrence",
  why="A missed or foreign occurrence needs a particular combination of nesting, reopening and file layout; renaming with one silently breaks a program.",
  files=["src/query/references.rs", "src/capabilities/rename.rs", "src/capabilities/document_highlights.rs", "crates/ruby-analysis/src/core/reference_store.rs"],
  mech=[("references", "src/query/references.rs constant_reference_locations_from_analysis"), ("rename", "src/capabilities/rename.rs"), ("highlight", "src/query/references.rs same_file_constant_highlight_locations")],
  observe=["textDocument/references", "textDocument/documentHighlight", "textDocument/rename"],
  technique=TP, note="The programs of P07 rendered with the references whose answer is certain, asked from two occurrences of every constant."),
 dict(id="P09", title="Answers follow the authoritative text: the open document, else the file on disk",
  statement="At every moment definitions, outline, symbols and diagnostics are those of the current texts: the editor's for an open document, the file's on disk otherwise. Opening, editing, saving, closing with or without discarding edits, and files created, rewritten or deleted on disk, while open or closed and several at a time, never leave a trace of a superseded text nor lose a current one. References across files are complete from the next save, external change or discarding close on, and diagnostics of open documents are published again when another file changes on disk.",
  over=["histories", "schedules"], forall="for every history of opening, editing, saving, closing, and external creation, rewriting and deletion over several files",
  why="Stale facts survive only particular orders of edit, close and external change; tests run a few fixed orders.",
  files=["src/capabilities/indexing.rs", "src/indexer/file_processor.rs", "src/handlers/notification.rs", "crates/ruby-analysis/src/engine/state.rs"],
  mech=[("open, change, save, close", "src/capabilities/indexing.rs handle_did_open, handle_did_change, handle_did_save, handle_did_close"), ("external changes", "src/capabilities/indexing.rs handle_watched_files_changed"), ("replacement of a file's facts", "src/indexer/file_processor.rs replace_analysis_facts_for_file")],
  observe=["textDocument/definition", "textDocument/references", "textDocument/documentSymbol", "workspace/symbol", "textDocument/publishDiagnostics"],
  technique=T, note="Every transition of the bounded Editor model (two files) and random histories of 20 steps over three files, every answer of every state compared with the model's."),
 dict(id="P10", title="What happened before does not matter: same texts, same answers",
  statement="After any history of edits, saves, closes and external changes, once every current text is known to the server (the last step a save, an external change or a discarding close), definitions, references, highlights, hovers of classes and modules, outlines, semantic tokens, code lenses, folding, names in the type hierarchy, call hierarchy, implementations, workspace symbols, the namespace tree and diagnostics are the same as those of a server started on these texts. This is claimed for calls whose receiver is evident at the call (self, a class, an object just made); types inferred from other files' contents follow lazily.",
  over=["histories"], forall="for every history over files with inheritance, mixins, prepends, visibility, aliases, constants, reopened classes and syntax errors",
  why="A leaked fact of an earlier text shows only after a particular history; a fresh server on the same texts is the oracle that no single test has.",
  files=["crates/ruby-analysis/src/engine/state.rs", "crates/ruby-analysis/src/core", "src/indexer/file_processor.rs", "src/capabilities/indexing.rs"],
  mech=[("replacement of a file's facts in every store", "crates/ruby-analysis/src/engine/state.rs replace_facts"), ("graph edges", "crates/ruby-analysis/src/core/graph_store.rs replace_file, remove_file"), ("methods, symbols, references, types", "crates/ruby-analysis/src/core/*_store.rs remove_file")],
  observe=["every answer listed, at random points of the history"],
  technique="TLA+ specification (Editor) simulated with TLC; its random behaviours replayed into the real server and compared with a fresh server on the model's authoritative texts", note="Random histories of 20 steps over three files with four texts each, a quarter over fixed texts, the rest over texts generated at random from about ninety constructs (some of them with syntax errors); the specification's theorem that answers are a function of the authoritative texts is checked by TLC, its instance by comparison with a fresh server. No ancestor disappears in these histories (known finding F12), and calls on block variables are left out (F24); each has a pinned case."),
 dict(id="P11", title="Local variables: every occurrence is bound as Ruby binds it",
  statement="Go to definition, find references, highlight and rename on a local variable or parameter agree with Ruby's scoping: methods and class bodies see no variable around them, blocks do, a block's parameter or block-local variable hides one of the same name, and a bare name that was not assigned before is a method call. Definition is the first occurrence; references, highlight and rename are exactly all occurrences of that variable, each once, asked from any of them.",
  over=["programs", "inputs"], forall="for every nesting of methods, class bodies and blocks with every order of parameters, assignments and uses of one or two names, in every syntactic form of assignment, parameter and use",
  why="Shadowing, capture and assignment order combine in more ways than tests list, and a rename that misses one occurrence changes what the program does.",
  files=["crates/ruby-analysis/src/indexer/rename.rs", "src/query/references.rs", "src/query/definition.rs", "src/capabilities/rename.rs"],
  mech=[("binding of occurrences", "crates/ruby-analysis/src/indexer/rename.rs RenameVisitor"), ("definition and references", "src/query/references.rs find_local_variable_references"), ("rename", "src/capabilities/rename.rs")],
  observe=["textDocument/definition", "textDocument/references", "textDocument/documentHighlight", "textDocument/rename"],
  technique=TP, note="Every program of the bounded Locals model (7 events over one name, sample of 6 over two; larger in the thorough tier) with syntactic forms drawn at random from about fifty."),
 dict(id="P12", title="Notifications handled at the same time end where one after another would",
  statement="Whatever notifications of opening, editing, saving, closing and of files changed on disk are in progress at the same time, and however their handling overlaps, once all are handled the server answers for the texts the last notifications established: for an open document the newest version, otherwise the file as it is on disk. An older version finishing late never replaces a newer one, and of several events of one file the last counts.",
  over=["schedules", "histories"], forall="for every overlap of open, change, save, close and file-event notifications of several files, with changes handled at once or after the typing pause",
  why="Which of two handlers finishes last depends on the schedule; a test fixes one.",
  files=["src/capabilities/indexing.rs", "src/server.rs", "src/handlers/notification.rs"],
  mech=[("ordering of one document's handlers", "src/server.rs document locks, version checks"), ("batches of file events", "src/server.rs pending watched changes, src/capabilities/indexing.rs handle_watched_files_changed"), ("late results", "src/capabilities/indexing.rs handle_did_change, handle_did_open")],
  observe=["textDocument/definition", "workspace/symbol", "textDocument/publishDiagnostics, after all handlers ended"],
  technique="TLA+ specification (Overlap) model checked with TLC for convergence; its behaviours (who is polled when) replayed into the real handlers as explicitly polled futures", note="Random behaviours of 26 steps over two files with up to three handlers in flight, both with and without the typing pause; the model itself is checked exhaustively over a smaller bound."),
 dict(id="P13", title="A method call leads to the method Ruby would run",
  statement="Go to definition on a call (bare, on self, on an object of a known class, on a class, or super) leads to exactly the method that Ruby's lookup runs: along prepended modules, the class, included modules in their order and then the superclass; for a class its own methods, what it is extended with and its superclasses'. Where the nearest method may not be called from there (private, protected, or made so by name in a subclass) there is no definition. Find references of a method includes every call that runs it; a call is reported as an unknown method where no class in reach has one and never where one runs.",
  over=["programs", "inputs"], forall="for every combination of mixins, their order, inheritance, extension, visibility and redefinition over two classes and two modules, in one or two files, and every way of calling",
  why="Mixin order, prepending, visibility and inheritance interact; tests pick single shapes, and a wrong answer is silent.",
  files=["crates/ruby-analysis/src/engine/resolution.rs", "crates/ruby-analysis/src/engine/diagnostics.rs", "src/query/definition.rs", "src/query/references.rs"],
  mech=[("ancestors", "crates/ruby-analysis/src/engine/resolution.rs build_mro, method_lookup_chain"), ("visibility", "crates/ruby-analysis/src/engine/resolution.rs effective_method_visibility_for_chain, method_visibility_allowed"), ("unknown methods", "crates/ruby-analysis/src/engine/diagnostics.rs")],
  observe=["textDocument/definition", "textDocument/references", "textDocument/publishDiagnostics"],
  technique=TP, note="Four families of the Methods model (mixins, extension, visibility, visibility overrides; 41662 programs), 2000 of each in the quick tier, 20000 in the thorough one. The specification agrees with Ruby 3.2 on all of them. References of protected methods are not covered."),
 dict(id="P14", title="Argument diagnostics are those of Ruby's calling rules",
  statement="A call whose method is known is reported as having a wrong number of arguments, missing required keywords or unknown keywords exactly when Ruby 3 would refuse it for that reason, naming the right number and keywords; a call with splats is reported only if no value of the splats could make it right. This holds for every way of calling (bare, on self, on an instance, on a class, new, super, send, safe navigation) and wherever the method is defined.",
  over=["inputs", "programs"], forall="for every parameter list (required, optional, rest, trailing, keywords, keyword rest, forwarding, destructured) and every argument list over it",
  why="The product of parameter kinds, argument kinds and splats is far beyond what tests list; a wrong report on correct code is what users notice.",
  files=["crates/ruby-analysis/src/engine/diagnostics.rs", "crates/ruby-analysis/src/engine/diagnostic_helpers.rs", "crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs"],
  mech=[("rule", "crates/ruby-analysis/src/engine/diagnostic_helpers.rs MethodArity, arity_mismatch"), ("reports", "crates/ruby-analysis/src/engine/diagnostics.rs push_signature_diagnostics"), ("arguments", "crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs method_signature_candidate_from_arguments")],
  observe=["textDocument/publishDiagnostics"],
  technique=TP, note="All 46080 combinations of the bounded Arity model (parameter lists times argument lists; larger in the thorough tier); a random 54 calls per parameter list and way of calling in each session. The specification agrees with Ruby 3.2 on every call without splats."),
 dict(id="P15", title="Every file belongs to one project, and projects do not see each other",
  statement="A file belongs to the innermost project around it: a workspace folder with a Gemfile is one project, one without is as many as there are nearest directories with a Gemfile below it, and just one if there are none. Definitions, references and unresolved names of a project come from its own files alone, a rename edits no other project's, and workspace symbols are those of the projects' own files. Files below vendor, .bundle, node_modules, tmp, log, coverage, .ruby-lsp and .ruby-fast-lsp of their project that the settings do not include, files they exclude, and files of no project, count only while they are open, are never edited by a rename asked in a project file elsewhere nor reported for unresolved names. Folders may be added and removed at any time: every project that comes is indexed to the end, whatever is open, those that go leave nothing behind, and an open file changes hands at once.",
  over=["histories", "inputs"], forall="for every arrangement of folders, nested folders and Gemfiles, every text of the files in them, and every history of opening, editing, saving, closing, external changes and added or removed folders",
  why="A leak between projects shows only where names collide over a particular layout, or after a file or folder changed hands; tests look at single layouts.",
  files=["src/server.rs", "src/indexer/project_roots.rs", "src/utils/file_ops.rs", "src/capabilities/indexing.rs", "src/handlers/notification.rs", "src/indexer/coordinator.rs"],
  mech=[("owner of a file", "src/server.rs analysis_workspace_for_uri, add_workspace_folder"), ("projects of a folder", "src/indexer/project_roots.rs"), ("external files", "src/utils/file_ops.rs ProjectFilePolicy, src/capabilities/indexing.rs source_kind_for_new_open_file"), ("folders at run time", "src/handlers/notification.rs handle_did_change_workspace_folders")],
  observe=["textDocument/definition", "textDocument/references", "textDocument/rename", "workspace/symbol", "textDocument/publishDiagnostics", "phase of each project's indexing"],
  technique=T, note="Random histories of the Projects model: eight files over three folders, one inside another, with and without Gemfiles and external directories, spelled so that one name begins another; every answer of every state compared with the model's. In a part of them folders come and go at run time and are really indexed. At least one folder is always there."),
]
