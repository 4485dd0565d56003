def q(over, text): return {"over": over, "text": text}
def mech(*ms): return [{"name": n, "where": w} for n, w in ms]
NOTE = "Sound over the modelled paths of the SSA program (no execution); trusts go/types, go/ssa, the modelling of the standard library stated in DESIGN.md, and single-threaded reasoning unless the rule says otherwise."
NA = []
PROPS = [
 dict(id="C01", title="A flow stops at its first failure and the failure reaches the exit status",
  statement="Within one run of a command flow no further command starts once a command has failed (reported failure, panicked, or its script exited non-zero), nested flows included, and the run is reported as failed up to a non-zero process exit status. A command whose errors are explicitly tolerated counts as succeeded whatever way its body or script failed, and the flow then goes on with the command right after it. A user abort always ends the run.",
  quantifier=q(["inputs","programs","fault_sequences"], "every flow, every nesting of flows, every command that fails in any way at any position, with and without tolerated errors, every process exit path"),
  why_tests_cant="The existing tests only parse token sequences; no test runs a flow. Failures come from arbitrary user commands at arbitrary positions and nesting depths, and the swallowing of panics crosses four layers.",
  anchors=dict(files=["pkg/core/execute/executor.go","pkg/core/model/cmd.go","pkg/ticat/ticat.go","pkg/mods/builtin/join.go"],
   mechanism=mech(("flow loop returns at the first failed command","pkg/core/execute/executor.go Executor.executeFlow"),("outcome of a command, tolerated errors","pkg/core/model/cmd.go Cmd.Execute, Cmd.execute"),("exit status","pkg/ticat/ticat.go TiCat.run"),("nested runs","pkg/mods/builtin")),
   observe_at=["which commands run, and the process exit status"]),
  technique="path-sensitive typestate dataflow over SSA (interprocedural, with panics/defers)", level_note=NOTE),

 dict(id="C02", title="A flow whose env keys or os commands are not in order never starts",
  statement="Before the first command of a flow runs, whatever way the flow is started (typed, nested through a flow command, a loop, a hook, a retried session or a deferred end command), the env keys its commands read, in every nested flow, must each be written before or given a value, and the os commands they depend on must exist, and otherwise no command of the flow runs and the failure is reported. The os-command check may be left out only for flows that merely describe other commands, and both checks only where the caller switched safe execution off, for nested runs whose enclosing flow was already checked, or for commands recorded as skipped.",
  quantifier=q(["inputs","programs","configurations"], "every flow, every way of starting one, every command tree and environment"),
  why_tests_cant="No test checks or runs a flow against an environment; the ways of starting a flow are spread over many packages and each one has to pass the same gate.",
  anchors=dict(files=["pkg/core/execute/executor.go","pkg/core/model/env_ops.go","pkg/core/model/depends.go"],
   mechanism=mech(("gate before the flow loop","pkg/core/execute/executor.go Executor.execute, checkEnvOps, checkDepends"),("env operations of a flow and its nested flows","pkg/core/model/env_ops.go CheckEnvOps"),("os commands a flow depends on","pkg/core/model CollectDepends"))
   ,observe_at=["whether any command of an unsatisfied flow runs, and what is reported"]),
  technique="path-sensitive must-pass-through (typestate) dataflow over SSA from every start of a flow, plus structural rules on the checkers", level_note=NOTE),
 dict(id="C03", title="A retried session re-runs exactly what had not succeeded",
  statement="When a recorded session is retried, a command is skipped exactly when the record says it had succeeded; everything else runs again, in the recorded order and with each command keeping its own mask, nested flows included. A result missing from the record never counts as a success, and a command the user skipped is not recorded as succeeded. A flow that is not being retried executes every command.",
  quantifier=q(["histories","crash_points","programs"], "every recorded session, whichever command it stopped at, every nesting of flows, every kind of command"),
  why_tests_cant="No test records or retries a session; which commands are skipped depends on the point at which the earlier run stopped.",
  anchors=dict(files=["pkg/core/model/cli.go","pkg/core/model/cmd.go","pkg/core/model/executed.go","pkg/core/execute/executor.go","pkg/mods/builtin/session.go"],
   mechanism=mech(("masks built from the record","pkg/core/model ExecutedFlow.GenExecMasks"),("masks honoured","pkg/core/model/cmd.go Cmd.Execute"),("record of a run","pkg/core/model/executed.go"))
   ,observe_at=["which commands a retried session runs, and what the new session records"]),
  technique="path-sensitive dataflow over SSA (mask construction, mask use, record), plus structural pairing rules", level_note=NOTE),
 dict(id="C04", title="Describing, listing and checking change nothing and run nothing",
  statement="Commands that describe, list or search (flows, commands, environment, hub, sessions), and the checks made before a flow runs, leave the session environment as they found it, run no command and write or delete no file; while they render nested flows the only commands that may run are the flow-rewriting ones, on copies of the environment and of the rewriting state. A background command gets its own copy of the environment, of its flow and of the run's mutable state, and the settings of its line reach the scheduling flow only when that was asked for.",
  quantifier=q(["inputs","programs","schedules"], "every describing/listing/checking command on every flow and environment; every background command, every timing"),
  why_tests_cant="No test describes or checks a flow; a leaked write shows only in what later commands of the same session see.",
  anchors=dict(files=["pkg/cli/display/flow.go","pkg/core/model/env_ops.go","pkg/core/model/dep.go","pkg/core/model/env.go","pkg/core/model/cli.go","pkg/core/model/blender.go","pkg/core/execute/executor.go","pkg/mods/builtin/dump_flow.go"],
   mechanism=mech(("checks and descriptions work on copies","pkg/core/model CheckEnvOps, CollectDepends; pkg/cli/display DumpFlowEx"),("copy of the run's state","pkg/core/model/cli.go CloneForAsyncExecuting, CloneForChecking"),("background commands","pkg/core/execute/executor.go asyncExecute"))
   ,observe_at=["environment after a describing command; files; environment of the scheduling flow"]),
  technique="interprocedural effect (mutation) summaries, reachability over a type-flow call graph, ownership/freshness analysis", level_note=NOTE),
 dict(id="C05", title="Background commands are always awaited and their failures reported",
  statement="A command started in the background is in the list of background tasks before the flow that scheduled it goes on, its task is marked finished exactly once and only after the command ended, with the command's error if it failed, whatever way it failed (while panics are recovered), and the result is readable before the finish is notified. Unless waiting is switched off (sys.bg.wait), a run that is not aborted ends only when no background task is left in the list, and it is reported as failed when one of them failed. A command that waits for background tasks fails when a task it waited for failed, and a task that was waited for is taken off the list, whichever way it was looked up.",
  quantifier=q(["schedules","fault_sequences","programs"], "every flow with delayed commands, every interleaving of foreground and background, every way a background command ends, every way of waiting"),
  why_tests_cant="No test schedules a background command; a lost task or a lost failure needs a particular interleaving or a particular way of failing.",
  anchors=dict(files=["pkg/core/execute/executor.go","pkg/core/model/bg_tasks.go","pkg/mods/builtin/bg_tasks.go"],
   mechanism=mech(("launch handshake and goroutine body","pkg/core/execute/executor.go asyncExecute"),("task state and notification","pkg/core/model/bg_tasks.go BgTask, BgTasks"),("waiting","pkg/mods/builtin/bg_tasks.go; Executor.Run")),
   observe_at=["when a run ends relative to its background commands, its exit status, the list of background tasks"]),
  technique="path-sensitive typestate dataflow over SSA (launcher, goroutine body with panics/defers, waiters, end of run)", level_note=NOTE),
 dict(id="C06", title="State shared with background commands is only touched under its lock",
  statement="The list of background tasks, each task's state and the output buffer of a background command are read and written only while the lock of that object is held, each operation on such an object in one critical section; every lock is released on every way out of a function, never taken twice or in opposite orders, and nothing waits for a channel, a process or a command while holding one. Package-level variables are not written after start-up.",
  quantifier=q(["schedules"], "every interleaving of the foreground with any number of background commands"),
  why_tests_cant="No test starts a goroutine; a race or deadlock needs a particular interleaving.",
  anchors=dict(files=["pkg/core/model/bg_tasks.go","pkg/core/model/screen.go"],
   mechanism=mech(("locks of the shared objects","pkg/core/model/bg_tasks.go BgStdout, BgTask, BgTasks; pkg/core/model/screen.go BgTaskScreen")),
   observe_at=["task list, task state and output seen by the foreground while background commands run"]),
  technique="lock-set typestate dataflow over SSA, lock-order graph, effect rule on package-level variables", level_note=NOTE),
 dict(id="C07", title="The record of a run reads back as what the run did",
  statement="Whatever the status record of a run contains, complete or cut off between two entries (a crash, a still running session), reading it gives back its flow, times, commands in order, sub-flows at their nesting level, background commands, environments, log files and results, without failing and without taking it for corrupted. The start and the end of each command and of each sub-flow are recorded as a pair, also when it fails or panics with the error tolerated; what is recorded as its outcome (and as that of the run) is its outcome. Entries are added to the record, never replaced. (Environment values with line breaks are a known exception.)",
  quantifier=q(["histories","crash_points","fault_sequences","programs"], "every flow and nesting, every outcome of every command, every crash point between two writes"),
  why_tests_cant="No test writes or reads a session record; which parts a record has depends on what was run, how it ended and where it stopped.",
  anchors=dict(files=["pkg/core/model/executing.go","pkg/core/model/executed.go","pkg/core/model/cmd.go","pkg/core/execute/executor.go"],
   mechanism=mech(("writer of the record","pkg/core/model/executing.go ExecutingFlow"),("reader of the record","pkg/core/model/executed.go ParseExecutedFlow"),("pairing of starts and ends","pkg/core/model/cmd.go Cmd.execute, Cmd.executeFlow; Executor.Run")),
   observe_at=["session listings, descriptions and retries of the recorded session"]),
  technique="extraction of the written record grammar by dataflow over SSA, abstract interpretation of the reader on every composition of it, typestate pairing", level_note=NOTE),
 dict(id="C08", title="A save is all or nothing, and what was saved is what is loaded",
  statement="Saving the environment (persisted, snapshot or the session file scripts read), the list of repos or a flow file leaves the previous version untouched until the new one is completely written and then replaces it in one step; a save that fails in any way is reported and never replaces the old version. Loading reports a failed read instead of taking a part for the whole, whatever the length of a line; each part of the repo list and of a flow file is read back from where it was written, and is kept when a flow's help is changed. Keys that belong to one run (session, stack, breakpoints, events, paths, screen size) are never saved with the environment. (Environment values with line breaks are a known exception.)",
  quantifier=q(["crash_points","fault_sequences","inputs"], "every point at which a save is cut off or an operation on the file fails, every content"),
  why_tests_cant="No test saves anything; losing the old version needs a crash or a full disk at a particular point of a save.",
  anchors=dict(files=["pkg/core/model/proto.go","pkg/mods/persist/hub_meta/hub_meta.go","pkg/mods/persist/meta_file/meta_file.go","pkg/mods/persist/flow_file/flow_file.go"],
   mechanism=mech(("env files","pkg/core/model/proto.go SaveEnvToFile, LoadEnvFromFile, EnvOutput, EnvInput"),("repo list","pkg/mods/persist/hub_meta WriteReposInfoFile, ReadReposInfoFile"),("flow files","pkg/mods/persist/flow_file, meta_file MetaFile.Save")),
   observe_at=["the files on disk after a save that fails or is cut off; what a later run loads"]),
  technique="path-sensitive typestate of created files over SSA with every file operation failing in turn; part-by-part comparison of writers and readers", level_note=NOTE),
 dict(id="C09", title="Clearing sessions spares running, young and unrelated ones",
  statement="A session (its directory under the directory of sessions) is removed only when the system answered that the very process its name carries is gone (an answer that is unclear, or that the process belongs to somebody else, counts as running), unless removing running sessions was asked for, which is never the default. The sessions cleared when another one starts have besides ended a start time, read in the form and time zone it was written in, more than the keep duration ago. Nothing whose name is not that of a session is removed or listed; a listed session carries the process id of its own directory; an id or a search stands only for the sessions that match it, and an empty one for none.",
  quantifier=q(["histories","schedules","inputs"], "every content of the directory of sessions, every answer of the system about a process, every id and search"),
  why_tests_cant="No test clears sessions; whether a process still runs, and under whose account, depends on the system at that moment.",
  anchors=dict(files=["pkg/core/model/session.go","pkg/utils/misc.go","pkg/mods/builtin/sessions.go"],
   mechanism=mech(("clearing","pkg/core/model/session.go CleanSessions, CleanSession, SessionInit"),("listing","pkg/core/model/session.go ListSessions, parseSessionDirName"),("is a process running","pkg/utils/misc.go IsPidRunning, IsPidExists")),
   observe_at=["which directories of sessions are left after sessions.remove*, sessions.remove.all and the start of a run"]),
  technique="path-sensitive dataflow over SSA with symbolic paths, ids and times, every answer of the operating system in turn", level_note=NOTE),
 dict(id="C10", title="Saved flows and snapshots are replaced only after a yes, removed only by name",
  statement="Saving, renaming or moving flows, and saving an env snapshot, puts a file where a flow or snapshot file exists already only if the user answered the question with a y or the command's overwrite option is on (for flow.save it is off unless given). A flow never gets the name of an existing command that is not the saved flow being overwritten. Changing the help of a flow keeps its flow, abbreviations, trivial level, auto args and pack-subflow. Removing a flow or a snapshot removes the one file of the flow or snapshot that was named; clearing all flows removes, and moving all flows moves, nothing but flow files of the flows directory. A question to the user is answered yes only by a line that begins with y (or Y).",
  quantifier=q(["inputs","histories"], "every content of the flows and snapshot directories, every name (also abbreviated), every answer of the user"),
  why_tests_cant="No test saves, renames, moves or removes a flow or a snapshot; losing one depends on what is there already.",
  anchors=dict(files=["pkg/mods/builtin/flow.go","pkg/mods/builtin/env_snapshot.go","pkg/mods/builtin/hub.go","pkg/utils/misc.go"],
   mechanism=mech(("flows","pkg/mods/builtin/flow.go SaveFlow, RenameFlow, RemoveFlow, RemoveAllFlows, SetFlowHelpStr, getFlowCmdPath, getCmdRealPath"),("moving","pkg/mods/builtin/hub.go moveSavedFlowsToLocalDir"),("snapshots","pkg/mods/builtin/env_snapshot.go EnvSaveToSnapshot, EnvRemoveSnapshot"),("question","pkg/utils/misc.go UserConfirm")),
   observe_at=["the files in the flows and snapshot directories after each command"]),
  technique="path-sensitive dataflow over SSA with symbolic paths, what is known about each destination, and every answer of the user", level_note=NOTE),
 dict(id="C11", title="The hub keeps its repos, uses only enabled ones, deletes only its own",
  statement="Whenever a hub command writes the list of repos, every repo that was in the list is still in it, with its state, except those a purge takes out: these are not enabled and were asked for. A repo or directory is enabled or disabled only if it matches what was asked for, and the new state gets into the list that is written. What is in the list already is not added to it a second time. At start the commands of every enabled repo are loaded, those of a repo that is not enabled are not. Only directories of repos the hub cloned are ever deleted (never a local directory of the user), by a purge only those of matching repos that are not enabled.",
  quantifier=q(["inputs","histories"], "every list of repos (order, states, addresses contained in one another), every find string and address"),
  why_tests_cant="No test uses the hub; losing an entry depends on the order and the overlap of the entries.",
  anchors=dict(files=["pkg/mods/builtin/hub.go","pkg/mods/persist/hub_meta/hub_meta.go","pkg/mods/builtin/utils.go"],
   mechanism=mech(("list operations","pkg/mods/builtin/hub.go exactMatchHubRepo, purgeInactiveRepoFromHub, EnableRepoInHub, DisableRepoInHub, addLocalDirToHub, addRepoToHubAndLoadMods, UpdateHub; pkg/mods/persist/hub_meta ExtractAddrFromList"),("loading","LoadModsFromHub"),("deleting","osRemoveDir")),
   observe_at=["the list of repos after a hub command; which commands are loaded; which directories are left"]),
  technique="path-sensitive dataflow over SSA with one arbitrary list element singled out (membership in each list, in-place cuts, aliases)", level_note=NOTE),
 dict(id="C12", title="A bad or conflicting module changes and stops nothing but itself",
  statement="A command is registered only at a place of the command tree where there is none yet or only a totally empty placeholder (except when an embedding program asks for a replacement); a name or abbreviation of a command, an env key or an argument that is taken is never redirected to something else; adding a sub-command never drops one of the same name, and no two builtin commands are added under one name. Looking up a command, argument or env key abbreviation registers nothing. A module file whose place is taken by a command of another source changes nothing of that command (source, args, deps, env ops, tags, flags). While the files of a repo or the saved flows are loaded, a module or help file that fails (or is gone) ends neither ticat nor the walk over the other files: the failure is recorded, no recorded failure gets lost, and all are shown before commands run. A saved key, or a command abbreviation in use as one of keys, whose name is taken already ends no run.",
  quantifier=q(["inputs","configurations"], "every content of the module directories: conflicting, ill-formed, empty, unreadable and missing files, in every order"),
  why_tests_cant="No test loads modules; which command loses depends on the order and the conflicts of the files of several repos.",
  anchors=dict(files=["pkg/core/model/cmds.go","pkg/core/model/env_abbr.go","pkg/core/model/args.go","pkg/core/model/errs.go","pkg/mods/persist/mod_meta/mod_reg.go","pkg/mods/builtin/mod.go","pkg/mods/builtin/flow.go","pkg/cli/display/err.go"],
   mechanism=mech(("registering","pkg/core/model/cmds.go CmdTree Reg*Cmd, cmdConflictCheck, AddSub, addSubAbbrs, getOrAddSub"),("loading","pkg/mods/builtin/mod.go loadLocalMods, pkg/mods/builtin/flow.go loadFlowsFromDir, pkg/mods/persist/mod_meta RegMod, regModFile"),("failures","pkg/core/model/errs.go TolerableErrs.OnErr, pkg/cli/display/err.go PrintTolerableErrs")),
   observe_at=["which command runs under a name, with which args and deps, after modules were loaded; which failures are shown"]),
  technique="path-sensitive typestate over SSA of every store into the command tree; abstract interpretation of the builtin registration; containment of panics on the call graph", level_note=NOTE),
 dict(id="C13", title="However a run ends, its hooks run once and its failure is shown",
  statement="Whichever way a run ends in a session (success, failure, panic of any command), the hook set for that outcome (done or error) and then the exit hook are executed, once each and in this order, before the process ends; a hook that fails ends the process with an error shown and a non-zero status. Whatever ticat raises is an error value and not nil, so that what handles failures can show it and none is taken for a success; nothing else than the process entry ends the process. While panics are recovered, the error that was raised is shown whatever the display settings are, also when showing it the usual way fails, and showing it ends; text quoted in an error message is shown as it is. The commands hook.done, hook.error and hook.exit set the hook of their name.",
  quantifier=q(["programs","fault_sequences","inputs"], "every run and every point at which a command, a hook or the display of an error fails"),
  why_tests_cant="No test runs the process entry or an exit hook; the ways out differ by what failed, where, and by the settings.",
  anchors=dict(files=["pkg/ticat/ticat.go","pkg/cli/display/err.go","pkg/cli/display/tip.go","pkg/core/model/errs.go","pkg/core/model/cmd.go"],
   mechanism=mech(("process entry","pkg/ticat/ticat.go TiCat.run, exitEventHook, printError"),("showing errors","pkg/cli/display/err.go PrintError, tip.go TipBoxPrinter"),("hook commands","pkg/mods/builtin/builtin.go RegisterHookCmds")),
   observe_at=["the hooks executed, the error shown and the exit status of a run"]),
  technique="path-sensitive typestate over SSA of the process entry (run and hooks succeed, fail, panic in turn); type rule on every raised and recovered value; taint of error formats", level_note=NOTE),
 dict(id="C14", title="Settings last as long as their command, flow or session does",
  statement="What was set for the time of one command (the settings and args of its own line), of one nested flow (the settings at its head), of a quiet or forest-mode flow or of one nesting level (stack and stack depth) is gone after it whatever way it ended, tolerated failures and panics included; any other env key that a function puts back after running commands is put back on every way out. What a command body or a script itself sets goes to the session and stays for the rest of it. In forest-mode every command of the flow starts from a copy of the flow's own environment, otherwise commands share it. Looking up a key gives the value of the nearest layer that has it, also if that value is empty, and values collected from all layers are those of the nearest ones; a key that was set is found with that value, a deleted key is found in no layer any more (but that of the defaults), and a copy of an environment shares nothing with the original.",
  quantifier=q(["programs","inputs","fault_sequences"], "every flow, nesting and line, every key, every layer that has it, every way a command ends"),
  why_tests_cant="No test runs a flow on a layered environment; a setting that stays too long or is lost shows only in what later commands see.",
  anchors=dict(files=["pkg/core/model/env.go","pkg/core/model/cmd.go","pkg/core/model/parsing.go","pkg/core/execute/executor.go","pkg/core/model/forest.go","pkg/mods/builtin"],
   mechanism=mech(("layers","pkg/core/model/env.go Env.Get, GetEx, Has, SetEx, Delete, GetLayer, GetOneOfLayers, Clone, Flatten"),("lines and nested flows","pkg/core/model/parsing.go ParsedCmd.GenCmdEnv, ApplyMappingGenEnvAndArgv; pkg/core/model/cmd.go Cmd.executeFlow"),("bookkeeping","pkg/core/execute/executor.go executeFlow, stackStepIn, stackStepOut; pkg/core/model/cmd.go quiet sub-flows")),
   observe_at=["the environment seen by each command of a flow, and the one at its end"]),
  technique="path-sensitive dataflow over SSA (bookkeeping, lookups, changes), interprocedural origin analysis of environments and their layers", level_note=NOTE),
 dict(id="C15", title="No text, file or setting makes ticat read past the end of a text or a list",
  statement="Wherever ticat takes a character, a byte, an element or a part out of a text, of bytes or of a list of texts, the place it takes it from is inside it (the index is not negative and below the length; a part starts at or before its end and ends within the length), whatever the command line, flow, module, help, hub, session, snapshot and env files, settings, terminal width, args and outputs of scripts are: no such access ends a command or ticat with 'index/slice bounds out of range'. The configured separators and marks are taken to be not empty.",
  quantifier=q(["inputs","programs"], "every index and slice expression on texts, bytes and lists of texts in the module, every text, list and number that can get there"),
  why_tests_cant="The parsers, file readers and displays take texts apart at hundreds of places; the tests feed a handful of well-formed inputs, the accesses that go wrong need an unusual one (an empty line, a separator at the end, a mark without its partner).",
  anchors=dict(files=["pkg/core/parser","pkg/core/model","pkg/cli/display","pkg/mods","pkg/utils"],
   mechanism=mech(("taking command lines apart","pkg/core/parser sequence.go, cmd.go, env.go"),("taking files apart","pkg/core/model/executed.go, pkg/mods/persist mod_meta, meta_file, hub_meta, flow_file; pkg/core/model/flow.go"),("laying out what is shown","pkg/cli/display")),
   observe_at=["the exit of any ticat command: no 'out of range' panic"]),
  technique="interprocedural linear-inequality analysis over SSA (lengths and indexes; loop invariants by iterated weakening, inferred pre- and postconditions, Fourier-Motzkin)", level_note=NOTE),
 dict(id="C16", title="Nothing of a flow runs unless every word of it was understood",
  statement="Every word of a line or flow that the parser could not use (neither as part of a command name, nor as an arg or env definition, nor as a mark between commands) is reported as an error of the command it stands at: no word that an inner reader hands back, that is left over by the bracket and arg matching, or that stands between a name and its value is dropped while parsing reports success, and an error found on the way stays with its command. A line, a nested flow or the bootstrap line that has such an error starts none of its commands; excepted are lines whose first command takes the rest of the line as text (like saving a flow) and tail-mode calls whose command itself was understood. A text with an unclosed quote is refused, not run in part, and where a single command is asked for (in the api commands and for a flow's blender), a text that is not exactly one command without errors is refused.",
  quantifier=q(["inputs","programs"], "every line and flow: every sequence of words, brackets, separators and quotes, every command tree"),
  why_tests_cant="The parser tests compare a few well-formed lines with the expected tree; a dropped word needs an odd place of a bracket, mark or separator, and no test runs a line with an error to see that nothing of it starts.",
  anchors=dict(files=["pkg/core/parser","pkg/core/model/parsing.go","pkg/core/model/cli.go","pkg/core/model/cmd.go","pkg/core/execute/executor.go","pkg/cli/display/parse_err.go"],
   mechanism=mech(("taking a line apart","pkg/core/parser CmdParser.Parse/parse, EnvParser.TryParse/TryParseRaw/findLeft/findRight, SequenceParser, Parser.Parse"),("refusing it","pkg/core/execute/executor.go execute, pkg/cli/display/parse_err.go HandleParseResult, pkg/core/execute/cmd_type.go"),("texts in flows and args","pkg/core/model FlowStrToStrs, Cli.ParseCmd")),
   observe_at=["which commands run for a line with a word that means nothing, and what is reported"]),
  technique="words as linear resources: path-sensitive use-or-report analysis over SSA of the parser; typestate of command starts against the parse check", level_note=NOTE),
 dict(id="C17", title="The same run gives the same result: no map order gets out",
  statement="What ticat shows, lists, completes, saves, records, registers, maps, hands to scripts or runs is the same, in the same order, in every run with the same line, files and settings: nothing of it depends on the order in which Go walks a map. A list or text put together while walking a map is sorted (by whole elements) before it is used, which entry is kept or who wins when two write the same place does not depend on which came first, a walk that ends early ends with the same outcome whichever entry came first, and changing a map entry by entry gives the same map in every order.",
  quantifier=q(["inputs","configurations"], "every loop over a map and every list filled in one, every content of the map, every order of its entries"),
  why_tests_cant="Go picks another order in every run; a test that passes has seen one of them, and with few entries the bad one is rare.",
  anchors=dict(files=["pkg/core/model","pkg/core/execute/executor.go","pkg/cli/display","pkg/mods/builtin"],
   mechanism=mech(("environments","pkg/core/model/env.go Env.Flatten, Pairs; pkg/core/model/proto.go EnvOutput; pkg/core/model/parsing.go ParsedEnv"),("saved flows and records","pkg/core/model/flow.go SaveFlowEnv; pkg/core/model/executing.go writeCmdEnv"),("auto mapping","pkg/core/model/args_auto_map.go"),("displays","pkg/cli/display env.go, flow.go, dep.go, err.go, tags.go")),
   observe_at=["two runs of the same line on the same files: output, saved files, session records"]),
  technique="interprocedural effect analysis over SSA of every map-range loop (order classes of values), tracking of lists in map order to the sort", level_note=NOTE),
 dict(id="C18", title="A command gets its args as given on its line, else their declared defaults",
  statement="A command run by a flow gets, for each argument it declares, the value that its line (or an enclosing one) set for it, marked as provided, and otherwise the declared default, marked as not provided (nothing in a nested flow for args taken over by auto mapping). Positional words go to the declared arguments in order, a named one gets the word after its name. A script is called with its path, the session directory and then the values of all declared arguments in declared order; the env is written to the session file before it starts, and what it wrote there is read back into the session after it ended, also if it failed tolerated (unless the command has no session): every line of an env file that is read sets its key, deletes it or is an error. An arg mapped to an env key sets the key, in the session, if it was provided, and otherwise only if the key is not set and the default not empty. A template in a flow is replaced by the env value or, if there is none, the (not empty) arg value; one that has neither (and is no system variable) ends the run with an error unless incomplete rendering was allowed. A builtin command declares each argument it reads and reads each one it declares; a default read as a number is one, and a value which is not a number is an error.",
  quantifier=q(["inputs","programs"], "every command, every set of declared args (defaults, abbreviations, mappings) and every line; every builtin command and argument name"),
  why_tests_cant="The parser tests compare parsed lines, none runs a command and looks at the values it got; an empty value, a missing default or a mapped key that is set already are single cases among many.",
  anchors=dict(files=["pkg/core/model/env.go","pkg/core/model/args.go","pkg/core/model/argv.go","pkg/core/model/cmd.go","pkg/core/model/parsing.go","pkg/core/model/template.go","pkg/core/parser/env.go","pkg/mods/builtin"],
   mechanism=mech(("values","pkg/core/model/env.go Env.GetArgv, args.go Args.DefVal, argv.go ArgVals.Get*"),("words","pkg/core/parser/env.go EnvParser.TryParseRaw"),("scripts","pkg/core/model/cmd.go Cmd.executeFile"),("mapping","pkg/core/model/parsing.go ApplyArg2Env, ParsedCmd.ApplyMappingGenEnvAndArgv"),("templates","pkg/core/model/template.go"),("declarations","pkg/mods/builtin/builtin.go Register*Cmds")),
   observe_at=["the arguments and session env a script or builtin command sees; the flow a template renders to"]),
  technique="path-sensitive dataflow over SSA with one arbitrary argument singled out; declared against read argument names by interprocedural constant propagation", level_note=NOTE),
 dict(id="C19", title="A flow runs each of its commands once, in order",
  statement="The commands of a line or nested flow are executed in the order they are written, each once: the parser gives one command per part of the line; taking out empty ones, moving the command after '::' (or a priority command) at the end of a top line to the front, and what the blender does drop, double and swap no other. flow.replace puts the new command into the place of the next command it names (flow.replace.all: of each) and changes nothing else, with any number of replacements. A command's body, script or nested flow is run exactly once per execution, a nested flow before the script of the same command, and none when it is to be skipped; no command other than a power command changes which command comes next, and power commands either go on with the next or end the flow.",
  quantifier=q(["inputs","programs","histories"], "every line and nested flow: every number of commands, of empty ones, of replacement rules and of priority commands among them, every type of command"),
  why_tests_cant="The parser tests compare a few lines with the expected commands; none runs a flow and counts how often and in which order its commands came, and with replacing rules, priority commands and nesting the cases multiply.",
  anchors=dict(files=["pkg/core/parser/sequence.go","pkg/core/parser/cmds.go","pkg/core/model/blender.go","pkg/core/model/cmd.go","pkg/core/model/cmds.go","pkg/core/model/parsing.go","pkg/core/execute/executor.go","pkg/mods/builtin/blender.go","pkg/mods/builtin/utils.go"],
   mechanism=mech(("cutting a line into commands","pkg/core/parser SequenceParser.Parse, Parser.Parse"),("changing the list","pkg/core/execute/executor.go execute (removeEmptyCmds, the blender, moveLastPriorityCmdToFront), pkg/core/model/blender.go Blender.Invoke"),("running it","pkg/core/execute/executor.go executeFlow, executeCmd; pkg/core/model/cmd.go Cmd.execute, executeByType, executeFlow, executeFileNFlow"),("power commands","pkg/mods/builtin: the functions that are given the list and an index")),
   observe_at=["which commands run, how often and in which order: their output, the session record"]),
  technique="path-sensitive dataflow over SSA with one arbitrary command of the list singled out (list contents as sequences; counting of runs per path); interprocedural effect analysis of the writers of command lists and indexes", level_note=NOTE),
 dict(id="C20", title="Values of sensitive keys are shown masked",
  statement="Wherever ticat lists args or environment keys with their values (the frame shown while executing, the descriptions of flows, of commands and of executed sessions, the env listings, and the env commands that print the key they set with its value), the value of a key or arg whose name contains pwd, password, passphrase, secret or private (in any case) is shown as '***', unless it is empty or a boolean, or the user switched showing sensitive values on (display.sensitive, off by default). Other values are not masked. (Texts of flows, and a value asked for without its key, are shown as they are.)",
  quantifier=q(["inputs","configurations"], "every key and arg name, every value, every place that lists them, every display setting"),
  why_tests_cant="No test looks at what the displays print; a value gets out at the one listing, layer or detail level that forgot to mask it.",
  anchors=dict(files=["pkg/cli/display/args.go","pkg/cli/display/env.go","pkg/cli/display/flow.go","pkg/cli/display/cmds.go","pkg/cli/display/utils.go","pkg/core/model/env.go","pkg/mods/builtin/env.go"],
   mechanism=mech(("masking","pkg/cli/display/utils.go mayMaskSensitiveVal, pkg/core/model/env.go IsSensitiveKeyVal"),("listings","pkg/cli/display args.go DumpProvidedArgs, DumpEffectedArgs; env.go KeyValueDisplayStr(Ex), dumpEnv; flow.go normalizeValForDisplay and its users; cmds.go dumpCmd"),("commands","pkg/mods/builtin/env.go")),
   observe_at=["what is printed on the screen for a key named like a password"]),
  technique="interprocedural taint analysis over SSA (sources: values with keys; sanitizer: the masking with the value's own key; sinks: what is shown); path-sensitive dataflow of the masking itself", level_note=NOTE),
]
