#!/usr/bin/env python3
"""Writes properties.jsonl (one source, easier to edit than json lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
PR, PJ, RT, BC = "src/process.rs", "src/project.rs", "src/runtime.rs", "src/bytecode.rs"
NOTEST = "No test of block or scheduler semantics runs offline: the 18 stable tests cover encodings, tables, maps and colours only; "

p("C01", "Scripts interleave only at yields, in round-robin order; warp is atomic",
  "Running scripts take turns in a fixed round-robin order and a script is only preempted at a yield point: the end of each iteration of a loop or higher-order block, a wait, or a pending host operation. Code inside a warp block is never interleaved with other scripts. A preempted script later resumes exactly where it stopped, with its variables, pending loop state and partial results intact, and no runnable script is skipped in a round.",
  ["schedules", "programs"], "every set of concurrently running scripts, every placement of loops, waits, warps and calls in them",
  NOTEST + "an interleaving bug needs several scripts, and even the network-bound project tests look at one final state.",
  [PJ, PR], [("Project::step", PJ), ("Process::step_impl Yield / Warp / Return", PR)],
  [("process_queue", "run queue of script instances", PJ), ("warp_counter", "nesting depth of warp", PR)],
  ["order of host-visible effects", "global and sprite variables at each turn"])
p("C02", "Inputs start, queue, interrupt and stop scripts exactly as requested",
  "Start restarts every green-flag script, Stop ends every script and discards everything queued, and a custom event or key press triggers each matching script of each sprite exactly once with its arguments bound, missing ones defaulting to zero. A script has at most one running instance: a further trigger either restarts it, is queued in arrival order, or is dropped when the queue limit of that trigger is reached. Nothing queued is lost, duplicated or left behind once the system reports idle.",
  ["histories", "schedules"], "every sequence of inputs at any point of any schedule, all queue limits and interrupt flags",
  NOTEST + "input histories interleaved with running scripts are never generated.",
  [PJ], [("Project::input", PJ), ("Script::schedule / consume_context / stop_all", PJ), ("AllContextsConsumer", PJ)],
  [("context_queue", "pending triggers of a script", PJ)], ["arguments seen by each run", "idle reports"])
p("C03", "Broadcasts restart all and only matching receivers; wait ends when all do",
  "A broadcast (re)starts every script that listens for that message or for any message, on all sprites or only on the targets named, each with the message available, and starts nothing else. A broadcast-and-wait resumes its sender only after every script instance it started has ended for any reason (return, error, stop, restart, deletion), and does resume then. The message type may be any text value; other types are rejected with an error in the sender.",
  ["schedules", "programs", "histories"], "every sender/receiver topology (self-broadcast, nested, repeated while receivers run, clones, targets)",
  NOTEST + "receiver sets, restarts and simultaneous waits are not sampled.",
  [PJ, PR, RT], [("ProcessStep::Broadcast handling", PJ), ("BroadcastAndWait / Barrier", RT), ("SendLocalMessage", PR)],
  [("barrier", "liveness of woken script instances", RT)], ["order of effects of sender and receivers"])
p("C04", "Network messages reach each matching script once, in order, with fields",
  "Each incoming network message triggers every script listening for its type exactly once; messages are handled in arrival order, one run at a time per script, with each declared field bound to the value sent or to zero if absent, and none is dropped while the script is busy. Outgoing messages carry exactly the type, fields, values and targets named by the block. A reply is delivered to the sender of the message the replying script was started by and a blocking send returns the reply's value, or the empty text if there was none.",
  ["histories", "schedules", "programs"], "every sequence of incoming messages at any point of any schedule, every payload",
  NOTEST + "message histories are only produced by a live server.",
  [PJ, PR], [("Project::step receive_message", PJ), ("SendNetworkMessage / SendNetworkReply", PR)],
  [("reply_key", "who to answer", PR)], ["send_message / send_reply calls", "values bound in handlers"])
p("C05", "Stop blocks end exactly the scripts they name, immediately",
  "Stop all ends every script; stop this script ends only the script executing it including all its pending calls; stop this block returns from the innermost custom block or closure; stop all but this script, and stop other scripts in sprite, end every other script respectively every other script of the same sprite and leave the rest running. Ended scripts have no further effect, waiters on them are released, and triggers already queued on the surviving scripts are neither lost nor stuck.",
  ["schedules", "programs"], "every stop mode executed at any point of any schedule, from nested calls, warps, closures run on other sprites",
  NOTEST + "no offline test executes a stop block.",
  [PJ, PR], [("AbortMode handling", PJ), ("Instruction::Abort", PR)], observe=["effects after the stop", "idle reports"])
p("C06", "Clones are independent copies with the original's scripts and lifecycle",
  "Cloning a sprite yields a new sprite with copies of all the parent's variables as they are at that moment, the scripts of the original, and a run of each clone-start script on it; later changes to the variables of either do not affect the other. Deleting a clone ends the scripts belonging to it and triggers none of its scripts from then on; deleting a non-clone does nothing. Clones of clones behave as clones of the original.",
  ["programs", "schedules", "histories"], "every clone/delete history interleaved with other scripts and events",
  NOTEST + "no offline test creates a clone.",
  [PJ, PR], [("CreatedClone / DeletedClone", PJ), ("Instruction::Clone, DeleteClone", PR)], observe=["variables and effects per sprite"])
p("C07", "Variables resolve by lexical frame, then sprite, then globals, and persist",
  "A variable reference reads and writes the innermost visible variable of that name: block-local or parameter first, then the current sprite's own variable, then the global. Locals of one block call or script are invisible to and unaffected by any other call, and each call starts with fresh locals; parameters hold the argument values; upvars name variables of the caller and writing them writes the caller's variable. Using an undefined variable is an error that names it.",
  ["programs"], "every nesting of scopes, calls, upvars, closures and sprites",
  NOTEST + "scope interactions are combinatorial and never enumerated.",
  [PR, RT], [("LookupGroup", RT), ("InitUpvar / DeclareLocal / Call", PR)], observe=["values read by host calls"])
p("C08", "Closures share captured variables by reference and run on the right sprite",
  "A closure sees and updates the very variables in scope where it was created, for as long as it lives, even after the creating block has returned; its parameters shadow captures and are fresh for each call, and calling it with the wrong number of arguments is an error. Run/call executes it in the current sprite or the given one, restoring the sprite afterwards. Launching one runs it as a new independent script, with the caller continuing immediately.",
  ["programs", "schedules"], "every creation site, capture set, call nesting and launch",
  NOTEST + "aliasing needs a history of creation, escape, update and call.",
  [PR, RT], [("MakeClosure / CallClosure / ForkClosure", PR), ("Shared aliasing", RT)], observe=["values read by host calls"])
p("C09", "Calls return to their caller with the reported value; recursion is bounded",
  "Reporting from any depth of loops, handlers or warps leaves exactly one call and gives its caller exactly the reported value (empty text if none), with the caller's locals, pending expression, warp state and handlers as before the call. Recursion through any kind of call beyond the configured depth limit raises a catchable error and never exhausts the host's memory or stack. Custom blocks resolve to the sprite's own block first, else the global one.",
  ["programs", "configurations"], "every call graph, return point and depth limit",
  NOTEST + "return paths out of nested constructs are not enumerated.",
  [PR, BC], [("Return / Call / max_call_depth", PR), ("function linking", BC)], observe=["results in callers"])
p("C10", "Errors unwind to the innermost handler, or end only the failing script",
  "A runtime or thrown error transfers control to the innermost active handler of the same script, also across calls, with the message text in the handler's variable, and with call depth, warp state, pending values and outer handlers as when that handler was installed. An error with no handler ends just that script, is reported once with its cause and the failing block's location, and leaves every other script running. Errors never crash the runtime.",
  ["programs", "schedules"], "every error-raising block in every nesting of handlers, loops, calls, closures and warps",
  NOTEST + "no offline test raises a runtime error.",
  [PR, PJ, BC], [("Process::step handler unwinding", PR), ("ProjectStep::Error", PJ)], observe=["handler effects", "error reports"])
p("C11", "Compiled control flow means what the blocks say, at any program size",
  "For every accepted program, executing the compiled form performs the effects of the blocks in order: conditionals and short-circuit operators evaluate only the chosen branch, loops run the specified number of iterations over their bounds or list as of loop entry, and every operand is evaluated exactly once in order. This holds whatever the size of the program, the number of its strings, scripts and blocks, or the distance of its jumps. Programs with unsupported constructs are rejected with an error rather than miscompiled.",
  ["programs"], "every program the parser can produce, including ones far larger than any test",
  NOTEST + "encoding unit tests never run linked code; address relocation depends on the whole program.",
  [BC, PR], [("ByteCodeBuilder::append_stmt / append_expr", BC), ("optimize / finalize", BC)], observe=["order and arguments of host calls"])
p("C12", "Operators coerce and broadcast over lists uniformly, and never yield NaN",
  "Arithmetic accepts numbers and numeric text (rejecting what does not denote a number) and applies element-wise over lists of any nesting, pairing two lists up to the shorter and combining a scalar with every element; sums, products, minima and maxima fold in order with their identities. Rounding, modulus, sign, power, log and trigonometric blocks follow their mathematical definition in degrees. A result that is not a number is an error, never a value, and operands are not modified.",
  ["inputs"], "all operand combinations: numbers, text, booleans, nested and shared lists",
  NOTEST + "operator x type x shape combinations are not covered.",
  [PR, RT], [("ops::unary_op / binary_op / variadic", PR)], observe=["results of operators"])
p("C13", "Comparisons agree with each other: loose equality, order and identity",
  "Equality compares numbers and numeric text by value, other text ignoring letter case, lists element by element, and sprites, closures, images and sounds by identity; not-equal is its negation. Less, greater and their non-strict forms agree with each other and with equality, compare lists element by element with a shorter list before its extensions, and are an error for values with no common order. Comparing cyclic lists is an error, never a hang. Identity is true exactly for the same list object or equal simple values of the same type.",
  ["inputs"], "all pairs of values, including nested, cyclic and aliased lists",
  NOTEST + "no offline test compares two values.",
  [PR, RT], [("ops::check_eq / cmp / identical", PR)], observe=["results of comparisons"])
p("C14", "List commands change exactly the addressed items, through every alias",
  "Insert, delete, replace and get use 1-based positions (whole-number positions only), last and random pick within bounds, and a list of positions addresses several items at once; a position out of range is an error and leaves every list unchanged. A list changed through one variable, element or capture is seen changed through all others holding it, while copies and derived lists are independent. Commands never corrupt or alias lists other than as written, even when list, item and index are the same list.",
  ["inputs", "histories"], "every sequence of list commands over aliased, nested and self-containing lists",
  NOTEST + "no offline test mutates a list; aliasing shows only over histories.",
  [PR], [("ListInsert/ListAssign/ListRemove/ListGet", PR), ("prep_index / prep_index_set", PR)], observe=["all reachable lists after each command"])
p("C15", "List reporters compute shape, order, membership and tables correctly",
  "Length, rank, dimensions, flatten, reverse, columns, reshape, combinations, concatenation, first/rest, find, contains, ranges and CSV, JSON and line export return exactly the value their definition gives for any nesting, share no structure with inputs beyond the elements themselves, and do not modify them. Cyclic input to a reporter that needs finite depth is an error, not a hang. Map, keep, find-first and combine call their function once per element in order, over the list as of the start.",
  ["inputs", "programs"], "all list shapes including ragged, empty, nested, aliased and cyclic",
  NOTEST + "no offline test evaluates a list reporter.",
  [PR, BC], [("ops::dimensions / flatten / reshape / ...", PR)], observe=["results"])
p("C16", "Text blocks count and index letters, and convert numbers to text faithfully",
  "Length, letter-of, reverse split by letter, word, line, tab, custom separator, CSV and JSON, joining, and conversion between characters and codes treat text as its user-perceived letters, with 1-based positions and errors out of range; splitting then joining restores the text. A number becomes its shortest text which reads back as the same number, whole numbers without a fractional part.",
  ["inputs"], "all texts including multi-byte and composed letters, all numbers",
  "Only number formatting of fixed samples is tested offline; no text block is executed.",
  [PR, RT], [("StrGet / TextSplit / UnicodeToChar", PR), ("Value::as_text, Number formatting", RT)], observe=["results"])
p("C17", "Host requests and commands happen once, in order, and resume their script",
  "Each block that needs the host issues exactly one request or command with its evaluated arguments, its script waits without blocking other scripts until the host completes it, and then continues with exactly the host's result. A failure becomes either a catchable error or, per configuration, a result holding the error text; either way the matching error reporter shows it until a later success clears it. Requests the host does not support raise a catchable error, and an answered question is what the answer reporter shows afterwards.",
  ["schedules", "fault_sequences", "programs"], "every completion order, delay and failure of host operations, both error schemes",
  NOTEST + "asynchronous completion orders are never explored.",
  [PR, RT], [("Defer handling in Process::step", PR), ("AsyncResult", RT), ("ErrorScheme", RT)], observe=["host calls", "values after completion"])
p("C18", "Waits last at least as long as asked and end; clock blocks report true time",
  "A timed wait resumes the script at its first turn at or after the requested duration, never earlier, and without blocking other scripts; zero or negative durations give up one turn only. Wait-until resumes at its first turn at which the condition holds, re-evaluating it every turn. The timer reports the time since start or last reset, date and time blocks report the local clock's fields, and all of these work for every finite duration.",
  ["schedules", "inputs"], "all durations and clock advances at any point of any schedule",
  NOTEST + "no test controls the clock.",
  [PR, RT], [("Instruction::Sleep, ResetTimer, PushTimer, PushRealTime", PR), ("SysTime", RT)], observe=["turn at which effects occur"])
p("C19", "Sprite properties change as commanded, with clamping and wrapping",
  "Every property set, change, move, turn, point, goto and effect block gives the host the right property and amount, and with the standard property store it makes the property read back what was set: heading modulo 360 degrees, hue wrapped, percentages clamped to range, size never negative, exact translation along the heading. Properties not addressed do not change. Costume and sound selection by name or number find the named item and otherwise fail with an error.",
  ["inputs", "histories", "programs"], "all sequences of property blocks and amounts",
  "Properties are only exercised by server-bound tests on fixed projects.",
  [PR, RT, BC], [("Properties::perform_*", RT), ("SetCostume / NextCostume / PushSound", PR)], observe=["property values after each command", "host commands"])
p("C20", "A project starts in exactly its saved state, also after serialization",
  "At start, every global and sprite variable holds the value saved in the project, with shared and cyclic lists preserved as the same shared objects, and every sprite has its costumes, sounds, scripts and properties. Compiled code, initial state and location tables written out and read back behave identically. Identically configured runs with identical host answers behave identically, regardless of when memory is reclaimed.",
  ["programs", "configurations", "schedules"], "every project, any reclamation points, serialized or not",
  NOTEST + "initial object graphs and serialized code are never compared or run.",
  [BC, RT, PJ], [("ByteCode::extract_init_info", BC), ("GlobalContext::from_init", RT)], observe=["variables at start", "whole runs"])
p("C21", "Values convert to and from plain, JSON and NetsBlox JSON form losslessly",
  "Converting a plain value to its JSON or NetsBlox JSON form and back gives an equal value, including nested lists, text with any characters, and images and sounds with their content, name (of characters XML allows) and centre; the one exception is text which is itself the markup of an image or sound, which NetsBlox JSON cannot tell apart. Converting a runtime value to plain form copies it deeply; cyclic lists and values with no plain form are reported as errors and never hang; printing a value shows every part, a list inside itself as [...], and reading it as a type it does not have is an error naming both types. Malformed input is rejected with an error and never panics.",
  ["inputs"], "all values, all JSON documents",
  "One fixed list of round trips is tested.",
  [RT], [("SimpleValue::{into,from}_{netsblox_}json", RT), ("Value::to_simple / from_simple", RT)], observe=["converted values"])
p("C22", "A stale handle never reaches a newer object; live handles always work",
  "In the slot container, a handle returned by an insertion reads, writes and removes exactly that item until it is removed, and never again afterwards even if its storage is reused. Size, iteration and clearing agree with the set of live items. This holds for every history of operations, including many reuses of one slot.",
  ["histories"], "all operation histories", "One fixed history is tested.",
  ["src/slotmap.rs"], [("SlotMap", "src/slotmap.rs")], observe=["results of each operation"])
p("C23", "Small maps behave as maps in sorted or insertion order",
  "The vector map returns for each key the last value stored under it, reports the previous value on replacement, and iterates each key once, in ascending key order in sorted mode and in first-insertion order otherwise. Lookups by borrowed keys, mutable access, size and conversions agree with this for every history.",
  ["histories"], "all operation histories and key orders", "Two fixed histories are tested.",
  ["src/vecmap.rs"], [("VecMap", "src/vecmap.rs")], observe=["results of each operation"])
p("C24", "Reported errors are located at the failing block and its calling blocks",
  "For an error raised by a block that carries a location label, the location found for the error is that block's label, and for each enclosing call on the call stack it is the label of the calling block. Every set of labels that fits the documented pattern (a common prefix, signed decimal integers joined by a common separator, a common suffix) is reproduced character for character and any other set is rejected when compiling. The error summary pairs every frame with its location and variables.",
  ["programs", "inputs"], "every program, failing block and label scheme",
  "Location tables are tested on fixed maps, never against executed code.",
  [BC, "src/std_util.rs", "src/cli.rs"], [("Locations::condense / lookup", BC), ("ErrorSummary::extract", RT)], observe=["location of reported errors"])
p("C25", "One-shot results, barriers, idle detection and cached clocks keep their contract",
  "An asynchronous result is delivered to exactly one poll, then reads as consumed, and cannot be completed twice; a barrier opens exactly when the last participant is gone. The idle action fires after exactly the configured number of consecutive idle steps or yields since the last activity. A cached clock never returns a reading older than the last update and refreshes exactly when the precision asked for requires it.",
  ["histories"], "all histories of completion, polling, cloning, dropping and stepping",
  "No test uses these primitives directly.",
  [RT, PJ, "src/std_util.rs"], [("AsyncResult, Barrier", RT), ("IdleAction", PJ), ("Clock, AsyncKey", "src/std_util.rs")], observe=["results of each operation"])
p("C26", "Colours and musical notes convert exactly within their documented ranges",
  "Every MIDI number and every valid note name maps to one note and back, out-of-range or malformed ones are rejected rather than wrapped, names are case-insensitive with sharps and flats shifting by semitones, and frequency doubles per octave from A4 at 440 Hz. Playing notes gives the host exactly the notes, in order, and their duration from the tempo. Colour conversions between RGB and HSV round-trip within rounding, with hue wrapped and the rest clamped.",
  ["inputs"], "all integers and texts as notes, all colours",
  "Only the range 0 to 255 of one constructor and some colours are tested.",
  [RT, PR], [("Note", RT), ("Color", RT), ("prep_note", PR)], observe=["converted values", "PlayNotes commands"])
p("C27", "The standard network system routes messages, replies and calls faithfully",
  "Over the server connection, every outgoing message, reply and service call is transmitted once, with its type, content, targets and correlation id, in the order sent; every well-formed incoming message is delivered once in arrival order and anything malformed is ignored. A reply completes only the wait it correlates with, the first reply wins, and a wait without reply ends with no value after its timeout, not before. Service results are returned as the value the response denotes or as an error, never mixed up between concurrent calls; calls and commands the host handles itself reach its handler instead, whatever the program's sprites and lists refer to.",
  ["histories", "fault_sequences", "schedules"], "all interleavings of sends, replies, duplicates, malformed packets and delays",
  "The only tests need the live server.",
  ["src/std_system.rs"], [("StdSystem", "src/std_system.rs")], observe=["frames seen by a loopback server", "values returned"])
p("C28", "Host extensions see the right origin, unwound state and their own operations",
  "The state a host attaches to a sprite is made once per stage, sprite or clone, from what it stands for, a clone's from its parent's; the state of a script instance is made from its sprite and the instance which dispatched it: the sender of a broadcast, the launching script, or the one that made the clone, and none for inputs and network messages. When a call returns or an error is caught, the instance's state is unwound to what it was at the call's entry or when the handler was installed. Layered host handlers are consulted in order of priority, until one accepts; the operation reaches it unchanged, and the system's own handling only if none does.",
  ["programs", "histories", "schedules"], "all programs, lineages of scripts and clones, and stacks of handlers",
  "No test attaches state to processes or stacks handlers.",
  [PR, PJ, RT], [("Process::new, call and error unwinding", PR), ("ProcessKind, EntityKind, Config::fallback, Unwindable", RT), ("broadcast, fork and clone dispatch", PJ)], observe=["origin and state seen by host operations", "handlers consulted"])
p("C29", "The command-line tool runs, controls and reports on projects faithfully",
  "The execution server runs the last project that loaded; one that cannot be read or compiled is reported and leaves the previous one running and reported as current. Start, stop and the pause switch act as named, start also resumes, a pause block pauses; anything else is refused without effect. Every line of output and every error summary is handed out exactly once, in order, to the next fetch. Running a project file runs the role chosen, or explains why it cannot; keys reach the scripts, or edit the answer to the oldest open question, in a terminal of any size, and output appears completely and in order.",
  ["histories", "programs", "inputs"], "all projects and all sequences of requests, keys and answers",
  "No test runs the command-line tool.",
  ["src/cli.rs", "src/main.rs", "src/std_util.rs"], [("run_server", "src/cli.rs"), ("run_proj_tty, run_proj_non_tty", "src/cli.rs"), ("open_project, get_env", "src/cli.rs")], observe=["HTTP responses", "terminal and standard output", "exit status"])
p("C30", "Files used by projects are read and written exactly, through live handles only",
  "With file access enabled, reading a file gives its lines one after another, each exactly as it is in the file, then empty text; text which is not UTF-8 is an error for its line alone. Every line written appears once, in order, in the file when it is closed or the tool is quit: opening for writing empties the file, for appending keeps what is there, for reading never makes or changes it. A handle works only as what it was opened for and until it is closed, through every variable which holds it; anything else, and any path, mode or argument that is wrong, raises an error which scripts can catch, and changes nothing.",
  ["programs", "inputs", "histories"], "all projects, files and sequences of file operations",
  "No test uses the file operations.",
  ["src/main.rs"], [("open, close, readLine, writeLine", "src/main.rs"), ("Syscall", "src/process.rs")], observe=["values read", "errors raised", "files left"])
p("C31", "Scripts added by a host behave like the project's own",
  "A host may make a project from its global context, and give any sprite any script of the project, or any custom block, under any event, before the project runs or at any moment later, at the positions the compiler reports for them. Adding changes nothing by itself. From then on the added script is triggered, queued, interrupted, stopped, copied to clones made later and removed with its sprite's deletion, exactly as the last script of a project which always had it; several added under one event run in the order they were added, and every other script is undisturbed.",
  ["programs", "schedules", "histories"], "all projects, all scripts and custom blocks, all moments of adding them",
  "No test adds a script to a project.",
  [PJ, BC, RT], [("Project::add_script, Project::new", PJ), ("ScriptInfo", BC), ("GlobalContext::from_init", RT)], observe=["host calls", "step kinds", "results", "project state"])
p("C32", "The editor's extension shows what the server reports and does what its user asks",
  "Rendered for any server address, menu of host operations, omitted elements and interval, the extension is a valid script which registers itself once, and its menu offers exactly those operations, each label giving its value. Uploading sends the whole project without any of the omitted elements; each button sends its request once. While its terminal is open it asks once per interval, and never while an answer is pending; each piece of output is appended once, in order, and the newest megabyte is kept. Every error is shown, as a comment with its cause and variables, on every block any entry of its trace locates, whatever else the trace or other errors contain; it takes the place of older comments there, and the comments of one error come and go together.",
  ["inputs", "histories"], "all addresses, menus, projects and sequences of clicks, answers and time passing",
  "The only tests format five menus.",
  ["src/template.rs", "src/assets/extension.js"], [("SyscallMenu::format, ExtensionArgs::render", "src/template.rs"), ("cleanXML, TerminalMorph, updateLoop", "src/assets/extension.js"), ("run_server", "src/cli.rs")], observe=["requests sent", "text shown", "comments on blocks", "menu choices"])
p("C33", "The dump of a project shows all of what it compiles to",
  "Dumping a project file compiles the role chosen and shows every byte of its code exactly once, in order, instruction by instruction, each with its true address, with an instruction beginning wherever a script or custom block begins; then every byte of its data, with its address and printable form; then the size of both together. A project that cannot be read, chosen from or compiled is explained with an exit status, and nothing is shown.",
  ["inputs", "programs"], "all projects and choices of roles",
  "No test dumps a project.",
  [BC, "src/cli.rs"], [("ByteCode::dump_code, dump_data, total_size", BC), ("Instruction::read", BC), ("Mode::Dump, open_project", "src/cli.rs")], observe=["standard output", "exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
