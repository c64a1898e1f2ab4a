#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, checked against the schema)."""
import json, os
P=[]
def p(id,title,statement,over,otext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(d)

p("P01","A controller runs each target exactly once",
 "Within the lifetime of one controller, a target that is requested any number of times - concurrently or one after another, directly or through All, Seq, Deps, ArgTarget, Files prerequisites or by name from YAML, in one call or in several calls made from different goroutines - has its work executed at most once, and exactly once if some request for it is reached. Later and concurrent requests neither rerun it nor return before that one execution has finished.",
 ["schedules","programs","histories"],"all target graphs, all sets of concurrent and repeated Run calls on one controller, all goroutine interleavings",
 "The tests run a handful of fixed graphs under whatever schedule the Go runtime happens to choose; a check-then-act window between two requests is a few instructions wide, and named references from two places are not exercised.",
 ["runner.go","controller.go","gate.go","all.go","seq.go","deps.go","argtarg.go","yaml.go"],
 [("run-once table guarded by the controller's mutex","runner.go: Controller.Run"),("outcome gate that later requesters wait on","gate.go"),("resolution of by-name references before the table lookup","runner.go, yaml.go: deferredResolutionTarget.resolve")],
 ["executions counted inside the leaf targets the harness supplies"],[("ran","targets that have run or are running, with their outcome","controller.go")])

p("P02","Distinct targets are never mistaken for one another",
 "Two different targets given to the same controller are both executed and each request receives the outcome of the very target it asked for, no matter when targets are created, dropped and garbage-collected during the controller's lifetime, and however their values are laid out in memory (of different types, one may be the first field of another or have no size at all). A target that has never run is never reported as already done.",
 ["histories","schedules","programs"],"all histories in which targets are created at run time, run, dropped and collected; all target types; all garbage-collection points",
 "Tests keep every target alive in a local variable for the whole test and never run a garbage collection between two Run calls, so identity is never put under pressure.",
 ["runner.go","register.go","controller.go"],
 [("identity used as key of the run-once and description tables","register.go: targetAddr; runner.go: Controller.Run")],
 ["executions counted per created target; outcome returned to each requester"])

p("P03","Every requester receives the true outcome of what it asked for",
 "Controller.Run returns only after every target it was given has finished, returns nil only if all of them succeeded, and otherwise returns an error in which the failure of every failing requested target can be found - for each requester of a shared target, whether it caused the execution, waited for it, or asked afterwards. An error is never lost, replaced by another target's outcome, or invented.",
 ["schedules","programs","histories"],"all graphs and failure patterns, all interleavings of concurrent and later requesters",
 "Tests check single failures in fixed graphs; whether a waiting requester sees the stored error depends on the interleaving of writing the outcome and opening the gate.",
 ["runner.go","gate.go","all.go","seq.go","argtarg.go"],
 [("outcome stored before the gate is opened","runner.go: Controller.Run"),("error accumulation over all targets","runner.go: errors.Join"),("waiting on the gate","gate.go: wait/set")],
 ["return values of every Run call in the history"])

p("P04","Seq, Deps and All keep their ordering promises",
 "Seq starts an element only after every earlier element has finished successfully and starts none after one has failed; Deps starts its main target only after all of its dependencies have finished successfully; All (and one Run call with several targets) starts every one of its targets regardless of the failure of another, and none of them waits for a sibling to finish.",
 ["schedules","programs"],"all nestings of Seq, All, Deps and ArgTarget including shared subtargets, all failure patterns, all interleavings",
 "Tests cover a few shapes; the promise quantifies over every interleaving and over targets shared between several Seq/Deps/All parents.",
 ["seq.go","all.go","deps.go","argtarg.go","runner.go"],
 [("sequential Run calls with early exit","seq.go: Run"),("one goroutine per target, joined before return","runner.go: Controller.Run"),("Deps as Seq(All(...), target)","deps.go: Deps")],
 ["start and end events of leaf targets"])

p("P05","An acyclic build always finishes",
 "Whenever no target depends, directly or indirectly, on its own completion, every Run call returns once the leaf work it needs has returned: there is no schedule that deadlocks, loses a wake-up or loops forever. This holds for shared subtargets, for concurrent Run calls, for Files targets chained through each other's files (including one that updates a file in place), and for YAML files that refer to each other's targets.",
 ["schedules","programs"],"all acyclic target graphs and file/YAML reference structures, all interleavings",
 "A lost wake-up or a lock held across a wait needs one particular interleaving; tests sample one schedule per run, and have no in-place or mutually referring definitions.",
 ["runner.go","gate.go","files.go","yaml.go"],
 [("gate broadcast under its lock","gate.go"),("no lock held while a target runs","runner.go: Controller.Run"),("prerequisite lookup by output file","files.go: runPrereqs"),("on-demand reading of other directories' YAML files","yaml.go: YAMLTarget")],
 ["simulator: no runnable task while a Run call is outstanding; step budget"])

p("P06","A Files target is skipped only when its outputs are really current",
 "When a build succeeds, the outputs of every Files target it covers are what the subtarget's current specification makes from the current inputs: execution of the subtarget is skipped only if the very same combination of specification, input contents and output contents was recorded by an earlier successful run. This holds across processes and across any history of edits, reverts, deletions, additions in listed directories, tampering with outputs, changes to the specification (at any depth), files edited while a build is running, and faults.",
 ["histories","inputs","crash_points","schedules","fault_sequences"],"all histories of edits, builds, crashes and restarts over all file sets and subtarget specifications",
 "The tests perform one or two edit/build rounds on fixed files in one process; a stale skip needs a particular history (revert, swap of two contents, edit during the build, change inside a nested specification).",
 ["files.go","seq.go","all.go","argtarg.go","command.go","hash.go"],
 [("hash over specification, inputs and outputs","files.go: computeHash, fileHashes"),("look-up before, record after the run","files.go: files.Run"),("JSON form of the subtarget","seq.go, all.go, argtarg.go, command.go")],
 ["contents of the output files against a reference evaluation after each successful build"])

p("P07","An unchanged, already built target is not rebuilt",
 "After a Files target has been built successfully, building it again - in the same or a later process, under the same hash database and within its retention time - does not execute the subtarget as long as specification, inputs and outputs have the contents they had then, also if they changed in between and were restored. This includes subtargets referred to by name and composite subtargets.",
 ["histories","inputs","schedules"],"all histories in which a recorded state is revisited before it expires",
 "Tests check one immediate rebuild with an in-memory database; the promise covers restored states, restarts, named subtargets and the retention window.",
 ["files.go","sqlite/db.go","main.go","yaml.go"],
 [("content-based hash, independent of process and time stamps","files.go: computeHash"),("refresh of the last-access time on look-up","sqlite/db.go: Has"),("deterministic form of the subtarget","files.go, yaml.go: deferredResolutionTarget")],
 ["executions of the subtarget per build"])

p("P08","A failed or interrupted build is never recorded as done",
 "If the subtarget of a Files target fails, is cancelled, or the process dies at any point before the subtarget has finished, nothing is recorded for it, and the next build executes it again and, once it succeeds, leaves correct outputs. At no crash point does restarting yield a build that reports success with wrong outputs.",
 ["crash_points","fault_sequences","schedules","histories"],"all crash points, all failure and cancellation instants, with any later history",
 "Tests never kill a build half-way; partially written outputs followed by a restart are never seen.",
 ["files.go","runner.go","command.go"],
 [("record only after a nil error","files.go: files.Run"),("exit status of commands turned into errors","command.go: Run")],
 ["hash database contents and output files after crash and restart"])

p("P09","A file's producer runs before its consumers",
 "When a Files target lists as input a file - or anything below a directory - that another Files target lists as output, that producer has finished before the consumer looks at its inputs or runs its subtarget, and if the producer fails the consumer's subtarget does not run and the failure is reported. One successful build therefore brings a whole chain of Files targets up to date, whatever the schedule.",
 ["schedules","programs","histories"],"all file-dependency graphs, request sets and interleavings",
 "Tests have one fixed chain; whether a consumer hashes its inputs before its producer has finished is a matter of schedule and of how the names match (directories, several producers, several consumers).",
 ["files.go"],
 [("registry of output files","files.go: filesRegistry, findInFilesRegistry"),("prerequisites run first","files.go: runPrereqs")],
 ["order of end of producer and start of consumer; chain outputs after one build"])

p("P10","I/O trouble makes the build fail loudly, never skip or crash",
 "If a file or directory cannot be read while deciding whether a Files target is up to date, or the hash database fails, the build returns an error (or completes correctly); it never panics, never treats unreadable data as up to date, and never reports success with stale or missing outputs. Once the trouble is over, the next build succeeds and is correct.",
 ["fault_sequences","histories"],"all placements of I/O errors (open, stat, read, readdir, write, close, rename) and database errors in all build histories",
 "Tests have no fault injection; the only error path they reach is a missing file.",
 ["files.go","command.go","sqlite/db.go","main.go","clean.go"],
 [("error returns of hashing","files.go: fileHashes*, hashFile"),("wrapped errors from the database","files.go: files.Run; sqlite/db.go")],
 ["outcome of each build under injected faults; panics"])

p("P11","The hash database behaves like a set with last-access expiry",
 "Under any mix of concurrent calls from several goroutines and processes, Has returns true for a hash whose Add completed and which has not expired since, and false for one never added; an entry is never evicted while less than the retention time has passed since its last Add or (when access refresh is on) its last successful Has, an expired entry is gone after a later Add, and without a retention time nothing is ever evicted. Without access refresh a Has never prolongs an entry's life.",
 ["schedules","histories","configurations"],"all concurrent histories of Add/Has over all clock movements and option combinations",
 "The tests use one goroutine, one entry and two clock readings; concurrent processes and boundary timing are not exercised.",
 ["sqlite/db.go","sqlite/schema.sql","main.go"],
 [("single-statement updates","sqlite/db.go: Has, Add"),("eviction on Add","sqlite/db.go: Add"),("options","sqlite/db.go: Keep, UpdateOnAccess, WithClock")],
 ["history of invocations and results checked against a sequential model"])

p("P12","The hash database survives crashes at any point",
 "Once Add has returned without error the hash is still found after a process crash or power failure at any later instant; an Add that was interrupted leaves the hash either present or absent. Whatever the crash point - including while the database is being created - the database can be opened and used again and contains no hash that was never added.",
 ["crash_points","fault_sequences","histories"],"all crash points (process kill and power loss with lost, reordered or torn unsynced writes) in all histories of operations",
 "No test crashes a process or loses an unsynced write.",
 ["sqlite/db.go","sqlite/schema.sql"],
 [("SQLite rollback journal with full synchronisation","sqlite/db.go: Open"),("idempotent schema creation","sqlite/schema.sql")],
 ["re-opened database after simulated crash"])

p("P13","Clean removes exactly what it should",
 "Running a Clean target removes every existing file it lists, plus - if its autoclean option is on - every output of Files targets declared with autoclean, and nothing else; files that are already missing are ignored, and a file that cannot be removed makes it return an error. The listed files of the target itself are not altered, also when it runs concurrently with other targets or is run with many controllers.",
 ["schedules","histories","fault_sequences","inputs"],"all sets of listed, autoclean and unrelated files, all orders of registration, concurrent executions and removal faults",
 "Tests remove one or two files sequentially; faults, vanishing files, and concurrent or repeated use are not exercised.",
 ["clean.go","files.go"],
 [("removal loop tolerant of missing files","clean.go: Clean.Run"),("autoclean registry guarded by a mutex","clean.go, files.go: Autoclean")],
 ["file system before and after; every removal recorded"])

p("P14","A dry run changes nothing",
 "In dry-run mode no command is executed, no file of the project is created, changed, truncated or removed, and no hash is recorded, for every combination of built-in target types and options; a dry run therefore never influences the result of a later real build. The targets a real run would visit are still visited without error.",
 ["programs","configurations","histories"],"all graphs of built-in target types, all option combinations, any position of a dry run in a build history",
 "Tests check dry-run for single target types; that it leaves no trace anywhere in a history of builds is not tested.",
 ["context.go","command.go","clean.go","files.go","ts/tsdecls.go","main.go","driver.go.tmpl"],
 [("dry-run flag in the context","context.go"),("early returns","command.go, clean.go, files.go, ts/tsdecls.go"),("flag passed on to the driver","main.go: Main.Run; driver.go.tmpl")],
 ["mutating operations on the simulated file system; commands started; hash database writes"])

p("P15","A command's outcome and output are reported faithfully",
 "A Command succeeds if and only if the program could be started, exited with status 0 and its output could be delivered; otherwise it returns an error, which carries all captured output when no destination was given. Every byte the program writes to standard output and error arrives, once and in order, at the configured destination (file overwritten or appended, both streams combined in the order of the writes if they have the same destination, writer, or fab's own output), and the program sees the configured arguments, directory, environment and standard input.",
 ["schedules","configurations","fault_sequences","inputs"],"all destination configurations, program behaviours (interleaved partial writes, exit codes, signals), schedules of the two output streams, and faults on the destination",
 "Tests run a few short-lived real programs that write one line; interleaving of the two streams, partial writes, failing destinations and full disks are not exercised.",
 ["command.go","runner.go"],
 [("selection of destinations","command.go: Command.Run, commandYAML.toTarget"),("error with captured output","command.go: CommandErr"),("closing of destinations","command.go: Command.Run")],
 ["bytes received by each destination; returned error; what the simulated program observed"])

p("P16","Indented output does not depend on how it was chunked",
 "What an indenting copier delivers depends only on the bytes written to it, never on how they were split into writes: every line is indented once, CR LF and bare CR become LF, a final CR is dropped, and nothing is reordered, duplicated or held back once Write has returned. If the underlying writer fails, Write returns that error, and what had been delivered is a prefix of the correct output.",
 ["inputs","fault_sequences","schedules"],"all byte sequences, all splittings into writes, all failures of the underlying writer",
 "The test feeds one text in one piece; splits inside CR LF or at line starts, and writer failures, are not covered.",
 ["runner.go"],
 [("state carried between writes","runner.go: indentingCopier"),("flush at the end of each write","runner.go: indentingCopier.Write")],
 ["bytes delivered to the underlying writer after each Write"])

p("P17","The driver that runs is the one built from the current sources",
 "Whenever fab runs a driver, that driver was compiled from the current contents of the project's build package and by the current version of fab (or with forced compilation was compiled just now); this holds across any history of edits (also while fab is compiling), reverts, failed or interrupted compilations, process crashes at any point and I/O errors, as long as invocations sharing a fab directory do not overlap. If that cannot be ensured, fab reports an error and runs no driver.",
 ["histories","crash_points","fault_sequences"],"all histories of source edits, fab upgrades, invocations, crashes and faults",
 "Tests compile once or twice with a real toolchain; a crash between storing the binary and storing its hash, or a revert after a failed run, is not exercised.",
 ["main.go","compile.go","dirhash.go"],
 [("hash of the source files compared with the stored one","main.go: getDriver; dirhash.go"),("version file","main.go: checkVersion"),("binary renamed into place","compile.go: CompilePackage")],
 ["content of the executed driver binary against the current sources"])

p("P18","An up-to-date driver is reused",
 "If neither the project's build package nor fab itself has changed since the last invocation, and that one compiled or ran its driver without failure, interruption or I/O error, a further non-forced invocation does not compile anything and runs the existing driver. After one successful run, therefore, unchanged invocations cost no compilation.",
 ["histories"],"all histories of invocations, with forced ones, upgrades and failures in between",
 "Tests look at two consecutive invocations at most and skip the version check.",
 ["main.go","compile.go","dirhash.go"],
 [("stored hash and version information","main.go: getDriver, checkVersion")],
 ["compilations per invocation"])

p("P19","Cancellation stops running commands and fails the build",
 "When the context of a build is cancelled or its deadline passes, running commands are terminated, no further command is started, Run returns within bounded time - with an error if any command was cut short or kept from starting - and nothing that had not finished is recorded as built. A build that was not cancelled is not affected by cancellation of another one.",
 ["schedules","crash_points"],"all instants of cancellation in all builds",
 "No test cancels a build.",
 ["command.go","runner.go","files.go","argtarg.go"],
 [("context passed to every command","command.go: exec.CommandContext"),("context handed down the target graph","runner.go, seq.go, all.go, argtarg.go")],
 ["simulated processes alive after Run returned; result of Run; hash database"])

p("P20","Concurrent use of the public API is free of data races",
 "Running targets, registering and looking up targets, describing them, printing indented output, creating Files and Clean targets, and running any built-in target from several goroutines at once never performs conflicting unsynchronised accesses to memory, in fab's own state or in the target values.",
 ["schedules"],"all combinations of concurrent public operations, all interleavings",
 "The test suite is not run with a race detector and, if it were, sees only the races its own schedules happen to expose.",
 ["runner.go","controller.go","register.go","registry.go","files.go","clean.go","yaml.go","gate.go"],
 [("controller mutex","controller.go"),("registry mutexes","registry.go, clean.go"),("mutex of by-name references","yaml.go: deferredResolutionTarget")],
 ["happens-before race detector under simulated schedules"])

p("P21","Force rebuilds and keeps the record straight",
 "In force mode the subtarget of every requested Files target (and of its prerequisites) is executed exactly once even if it is up to date, and after success its state is recorded, so that the next normal build does not execute it again; force in one build has no effect on later builds.",
 ["histories","configurations","schedules"],"all build histories with forced builds at any position",
 "Tests check that force runs the subtarget once, not what follows from it in later builds.",
 ["files.go","context.go","main.go","driver.go.tmpl"],
 [("force flag in the context","context.go"),("bypass of the look-up but not of the record","files.go: files.Run"),("flag passed on to the driver","main.go; driver.go.tmpl")],
 ["executions per build"])

p("P22","An invocation that cannot be set up properly runs nothing",
 "If the project definition - including the YAML files it refers to - cannot be found, read or parsed, if a requested target name is unknown, or if the hash database cannot be opened, the fab command reports an error (non-zero exit status) and runs no target; otherwise it runs exactly the requested targets (all of them, even if one fails), and its exit status is zero exactly if they all succeeded. This is the same with and without a compiled driver.",
 ["fault_sequences","histories","configurations"],"all command lines over all projects, with I/O faults at every point of start-up",
 "Tests run the driverless mode on a few good projects; faults during start-up and mixed known/unknown names are not exercised.",
 ["main.go","controller.go","yaml.go","top.go","driver.go.tmpl","cmd/fab/main.go"],
 [("ordering of set-up before Run","main.go: driverless; driver.go.tmpl: main"),("argument parsing before running","controller.go: ParseArgs")],
 ["commands executed and exit status per simulated invocation"])

p("P23","Language targets are rebuilt when anything their tool reads changes",
 "A target made with golang.Binary, proto.Proto or ts.Decls, or with fab.Files and inputs from golang.Deps or proto.Deps - in Go or in YAML, in any directory of the project - is rebuilt unless the tool's arguments, the output and every source file that the tool reads are as they were after a successful build, and only then: the source files of the Go package and of the packages of the same module that it imports directly or indirectly (on request also of those below it, and the tests), the files they embed, and the protocol-buffer files imported directly or indirectly, in whatever way the import statement is written, each from the first include directory (the current one, if none is given) that has it. If the list of files cannot be computed, an error is reported; it is never silently incomplete. When a build reports success, the output is what the tool makes, given the directory, flags, options, type and prefix of the definition, from the current sources; it is removed by cleaning if it is to be (a Go binary always is), and a dry run does not touch it.",
 ["histories","programs","fault_sequences"],"all modules and trees of .proto files, all histories of edits and builds, I/O errors at every point",
 "Tests compute the list for one fixed tree and run one build; whether a later edit of an imported, embedded or newly added file causes a rebuild depends on the history.",
 ["golang/go.go","proto/proto.go","ts/tsdecls.go","files.go"],
 [("Go dependencies","golang/go.go: Deps, gopkgAdd"),("protocol-buffer dependencies","proto/proto.go: protodeps, protodepsImport"),("targets built on Files","golang/go.go: Binary; proto/proto.go: Proto; ts/tsdecls.go: Decls"),("YAML decoders","binaryDecoder, depsDecoder, protoDecoder, declsDecoder")],
 ["arguments and executions of the simulated tools, output files, exit status"])

p("P24","Progress messages are whole and true",
 "In verbose mode every target that is executed is announced exactly once, under its registered name if it has one, before its work begins, and a Files target says that it is up to date exactly when its subtarget is skipped for that reason; what is not executed is not announced. Every message printed with Controller.Indentf arrives in one piece - its indentation, text and line end are not interrupted by other messages, however many targets print at once - indented at least as deeply as the printing target is nested in Run calls of that controller, and not indented when no Run call is in progress.",
 ["schedules","programs"],"all target graphs and interleavings of targets that print",
 "Whether two messages get mixed up, a target is announced twice or the indentation does not return to nothing depends on the interleaving of the targets; tests print from one goroutine.",
 ["runner.go","files.go"],
 [("printing a message","runner.go: indentf"),("nesting depth","runner.go: incDepth, decDepth"),("announcement","runner.go: Controller.Run"),("up-to-date message","files.go: (*files).Run")],
 ["standard output, compared with the messages printed and the executions"])

p("P25","A listing shows exactly the project's targets",
 "Whenever fab lists the targets (with -list, or a driver that is given no targets) and reports success, the listing has every target of the project - each exported rule of the build package, and each target of every YAML file that belongs to the project, under its qualified name - exactly once, in alphabetical order, with what is written about it, and nothing else; the same with and without a driver. If the definition cannot be read or loaded completely, for whatever reason and at whatever point, an error is reported instead of a shorter listing.",
 ["fault_sequences","histories","configurations"],"all projects, all I/O errors at every point of start-up, all map iteration orders",
 "Tests list one intact project; whether an I/O error leaves a silently incomplete listing, or map iteration shows through, depends on the point of the fault and the order drawn.",
 ["controller.go","register.go","yaml.go","compile.go","driver.go.tmpl","main.go"],
 [("listing","controller.go: ListTargets; register.go: RegistryNames"),("reading the YAML files","yaml.go: ReadYAMLFile, ReadYAML"),("rules of the build package","compile.go: compilePackage; driver.go.tmpl"),("order of events","main.go: driverless; driver.go.tmpl: main")],
 ["standard output and exit status of simulated invocations"])

p("P30","YAML and Go definitions of a target mean the same",
 "A target defined in YAML behaves exactly like the one built with the corresponding Go constructor from the same values, with file names resolved relative to the YAML file's directory and target names resolved as documented: through any history of runs, edits, failing commands, crashes and unreadable files, the two definitions lead to the same executions (programs, arguments, directory, environment, input), the same outcomes, the same output and the same files. Ill-formed definitions are rejected with an error.",
 ["histories","fault_sequences","inputs"],"all projects, in both notations, and all histories of runs over them",
 "Tests decode a few documents and compare the decoded values; whether the two notations behave alike over a history - what is skipped, appended, cleaned, resolved where - depends on the history and on combinations of types.",
 ["yaml.go","command.go","files.go","clean.go","deps.go","all.go","seq.go","argtarg.go"],[("decoders","*Decoder functions"),("file and target names","yaml.go: YAMLFileList, YAMLTarget, deferredResolutionTarget; controller.go: JoinPath")],
 ["executions, outcome, standard output and error, files of two simulated histories"])
p("P31","Path helpers are consistent",
 "JoinPath anchors relative paths at the top directory and lets an absolute segment discard everything before it, and RelPath inverts it for paths below the top directory.",
 ["inputs"],"all path lists","Tests use a few paths.",["controller.go"],[("JoinPath, RelPath","controller.go")])
p("P32","The top directory is found from anywhere inside a project",
 "Starting in any directory of a project, existing or not, named in any way, and from any number of goroutines at once, the search yields the project's top directory: that of the nearest _fab directory or YAML file, the latter corrected by its _dir declaration. It reports an error when there is no project, when the nearest YAML file cannot be read as one, and when its _dir declaration contradicts the actual location. An I/O error on the way can make it report an error, but never find another project; and fab, invoked there, executes targets of that project only.",
 ["fault_sequences","inputs","configurations"],"all directory trees, _dir declarations and I/O errors","Tests use a few fixed trees, without errors; an I/O error that is taken for a missing file leads into the project around.",["top.go","yaml.go","main.go"],[("TopDir","top.go"),("openFabYAML","yaml.go"),("start","main.go: (*Main).Run")],
 ["result of the search in simulated processes; commands executed by simulated invocations"])
p("P35","Target discovery finds exactly the exported targets",
 "The compiled driver offers exactly the exported top-level identifiers of the build package whose type implements the target interface, with their doc comments.",
 ["programs"],"all build packages","Tests use one package.",["compile.go","types.go","driver.go.tmpl"],[("checkImplementsTarget","types.go"),("CompilePackage","compile.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
