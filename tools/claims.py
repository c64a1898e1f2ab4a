A = "Seeded search, not exhaustive: no violation in the runs counted in the evidence. Trusts the simulator's stand-ins (scheduler, sync, context, time, os, exec), which are listed per run in the evidence. Interleavings are explored at statement granularity under sequential consistency. "
claims = {
 "P01": ("seeded schedules over random target graphs, execution counts against a reference evaluation", A),
 "P02": ("seeded schedules over targets that share addresses and targets created and collected in bulk", A + "Garbage collection itself is the real runtime's, forced between rounds."),
 "P03": ("seeded schedules over random target graphs, every outcome compared with a reference evaluation", A),
 "P04": ("seeded schedules with probes around every element and start barriers", A),
 "P05": ("seeded schedules, deadlock and step-budget detection (bounded liveness)", A + "Liveness is progress within 200000 scheduling points."),
 "P06": ("seeded histories of edits, builds, faults and concurrent edits over simulated files, outputs compared with a reference build", A),
 "P07": ("seeded histories of builds and restored contents, executions counted against recorded states", A),
 "P08": ("seeded crash points, failing and cancelled subtargets, restart on the surviving files, outputs compared with a reference build", A),
 "P09": ("seeded schedules of chains of Files targets with probes at the start and end of every subtarget", A),
 "P10": ("seeded I/O faults at every file-system call and in the hash database, outcome and recovery compared with a reference build", A),
 "P11": ("seeded schedules of processes and goroutines on real SQLite over a simulated disk and clock, every answer compared with the history", A + "SQLite's own file layer is replaced by the simulator's."),
 "P12": ("seeded process kills and power failures (lost and torn unsynced writes) on real SQLite over a simulated disk, reopened and compared with the history", A + "SQLite's own file layer is replaced by the simulator's."),
 "P13": ("seeded Clean runs over simulated files with faults, file tree compared with a model", A),
 "P14": ("seeded dry runs of every built-in target over simulated files, file tree and executions compared before and after", A),
 "P15": ("seeded commands with simulated processes, pipes, files and faults, every byte compared with a model", A + "The programs are scripts of the simulator."),
 "P16": ("seeded chunkings, interleavings and write faults against a reference indenter", A),
 "P19": ("seeded cancellation instants and deadlines against running simulated processes, bounded return time", A),
 "P17": ("seeded histories of invocations of fab and its generated driver with edits, upgrades, crashes and faults on a simulated disk and a simulated go command, provenance of the driver that runs checked", A + "The Go compiler is a stand-in that packs the sources it is given; the generated driver's own code is linked into the simulator."),
 "P18": ("seeded histories of invocations of fab and its generated driver, compilations counted", A + "The Go compiler is a stand-in that packs the sources it is given; the generated driver's own code is linked into the simulator."),
 "P20": ("seeded schedules of concurrent public operations under a happens-before race detector that sees only the program's own synchronisation", A + "Simulated file and channel operations order tasks more strictly than real ones, so some races around them may be missed."),
 "P21": ("seeded histories of forced and normal builds, executions counted", A),
 "P22": ("seeded invocations of fab and its generated driver on intact and damaged projects with I/O faults during start-up, executions and exit status compared with a model", A + "The Go compiler is a stand-in; the generated driver's own code is linked into the simulator."),
 "P23": ("seeded histories of edits and builds of Go modules and protocol buffers through fab and through its Go functions, executions, arguments and outputs compared with a model of what each tool reads", A + "go list, go build, protoc and tsdecls are stand-ins; the one for go list reports files, imports and embedded files as the real one does for the cases drawn."),
 "P25": ("seeded histories of listings of intact and damaged projects with I/O faults during start-up, output and exit status compared with a model", A + "The Go compiler is a stand-in; the generated driver's own code is linked into the simulator."),
 "P32": ("seeded searches and invocations in trees of nested projects with I/O faults, results compared with a reference search", A + "No directory on the way up is reached through a symbolic link."),
 "P30": ("differential simulation: seeded histories with crashes, failing commands and unreadable files over projects defined once in YAML and once with the Go constructors, all observations compared; ill-formed definitions", A + "Commands that run at the same time do not depend on one another."),
 "P24": ("seeded schedules of targets that print, standard output compared with the messages and executions", A),
}
na = {
 "P31": "Pure string functions of their arguments; nothing for a simulator to schedule or break.",
 "P35": "A sequential function of static Go sources, computed by golang.org/x/tools; no concurrency or time in it.",
}
