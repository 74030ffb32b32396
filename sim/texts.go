package main

// What the evidence says about each check.

type text struct {
	rule    string
	measure string
	assume  []string
}

var (
	realCLI = []string{"the mustache binary built from /repo's working tree: cmd, internal, parser, ast, cobra, viper and the Go standard library", "the library in a process of its own as oracle for validity and for formatted text (drv)"}
	stubCLI = []string{"the kernel: files, directories, descriptors, standard streams, permissions, locks, page cache and durable state (sim/fs.go, sim/sys.go)", "runtime randomness, wall clock, process id, environment", "goroutine preemption (off; switches after system calls, seeded)", "time (fake time of the Go runtime, in step with the simulated kernel)"}
	realLib = []string{"the library built from /repo's working tree (parser, ast, astutil) with -race, a yield point before every statement"}
	stubLib = []string{"the thread scheduler (worker/rt)", "blocking of sync.Mutex and sync.RWMutex, contents of sync.Pool", "the io.Reader handed to ParseReader", "runtime randomness", "the clock: between two looks at it pass microseconds or, by seed, hours"}
)

const (
	traceMeasure = "hash of the complete system call trace with its results, the injected faults, exit status and both output streams"
	schedMeasure = "hash of the threads' scripts, the list of thread switches (step, thread) and everything the calls returned"
)

var kernelAssume = []string{
	"the simulated kernel behaves like Linux for the calls the binary makes; it was written from the manual pages and compared with the host kernel (check.sh --conformance)",
	"the files' formatted text is what the library itself says (meaning of formatting is not judged here)",
}

var powerAssume = append([]string{
	"durability model: file data and directory entries survive a power loss from the last fsync of the file (directory) on; anything later survives, is lost or, for data, survives in part, independently and in any order; a failed fsync drops the dirty pages and reports once; in half of the worlds fsync of a file also makes the entry it was created under durable, in the other half only fsync of the directory does",
}, kernelAssume...)

var libAssume = []string{
	"a thread switch can happen only before a statement of the library or in a read of the harness's reader, not inside a statement; the race detector, which the handoff leaves no trace in, covers what lies within",
	"the expected result of a call is what the same call gives alone in a fresh process of the same build",
}

var texts = map[string]text{
	"C01": {"a case is a world (1-3 files, symbolic and hard links, modes, owners, bystanders) and a rewriting command line; a scenario adds a kill point, faults, a small disk or none of them, and two slow readers. After every system call each file is read by an observer. Nontrivial: something was injected or a reader took part.", traceMeasure, kernelAssume},
	"C02": {"a case is a world and a rewriting command line; a scenario cuts the power at a chosen system call or after the end, with or without earlier faults, and draws what the disk kept. Nontrivial: all.", traceMeasure, powerAssume},
	"C03": {"a case is a world and a format, check, lint or rewriting command line; a scenario injects faults, or gives it a full or closed standard output, a standard input to be read, or a nearly full disk; one world in six has a single thing to report or to fix in one of the files; whenever the exit status is 0 the promised work is looked for, on the disk too if an fsync failed. Nontrivial: something was injected.", traceMeasure, kernelAssume},
	"C04": {"a case is a world with links, modes and bystanders and a rewriting command line; a scenario injects faults, a kill, or nothing; afterwards the whole file system is compared with the one before. Nontrivial: all.", traceMeasure, append([]string{"hard links to the rewritten file are outside the property"}, kernelAssume...)},
	"C05": {"a case is one of six situations in which (some) files must stay as they are: read-only commands, input that does not parse, nothing to fix, no permission, broken settings, bad command lines or files not named; a scenario adds faults, a kill or nothing; after every mutating call the file system is compared with the one before. Nontrivial: all.", traceMeasure, kernelAssume},
	"C06": {"a case is a world and any command line; a scenario shortens, interrupts and slows down (up to hours) reads, writes and other calls; outputs, exit status and files must be as without. Nontrivial: something was injected.", traceMeasure, kernelAssume},
	"C07": {"a case is a configuration and options; a scenario delivers it to ParseReader in pieces (sizes, empty reads, data with EOF) or fails the reader at an offset, or runs ParseFile on the simulated kernel with short, interrupted and failing reads; sources include such that look compressed or encoded and such that fail only after tens of megabytes; the result must be Parse of the whole, or an error and no configuration. Nontrivial: the delivery is not in one piece.", schedMeasure + "; for ParseFile " + traceMeasure, libAssume},
	"C08": {"a case is 2-5 threads with parses, readers (some that parse something themselves or wait for another thread), changes to own results and calls of GetFarthestFailure; a scenario is a seeded schedule (mean gap 2-20000 statements, extra switches at package-level state) and a policy for object pools. Every result must be that of the call alone, no data race may be seen, every snapshot must be one that some parse alone shows. Nontrivial: at least one voluntary switch.", schedMeasure, libAssume},
	"C09": {"a case is a sequence of 3-8 library calls, or of up to 2100, with inputs repeated under other options, input buffers overwritten, results changed by their owner, cut-off calls; a scenario is an order of them and a pool policy. Every result must be that of the call alone in a fresh process and must still be the same at the end. Nontrivial: more than one call.", schedMeasure, libAssume},
	"C10": {"a case is 2-7 (at times 30-150, repeated) arguments, some invalid, unreadable, missing or directories, and a command; the report must be the reports of one invocation per argument put together. Nontrivial: at least one of the files fails.", traceMeasure, kernelAssume},
	"C11": {"a case is a parsed configuration shared by 2-4 threads that render, inspect and dump it, next to helpers and other parses; a scenario is a seeded schedule. Every result must be that of the call alone, no data race may be seen, the configuration must not change. Nontrivial: at least one voluntary switch.", schedMeasure, libAssume},
	"C12": {"a case mixes calls that are cut off (expression limit, panic passed on, failing or panicking reader) with ordinary ones, in one thread or several; a scenario is an order or a schedule. The others must not notice. Nontrivial: at least one call is cut off.", schedMeasure, libAssume},
	"C13": {"a case is as in C10; a scenario makes stat, open, read, close or the rewriting of one or two of the files fail; report, files and outputs of all files must be those of one invocation per argument under the same faults. Nontrivial: a fault took effect.", traceMeasure, kernelAssume},
	"C14": {"a case is 3-44 files, directories and odd arguments and a command, with or without settings files, or the library in a long-lived process; a scenario injects faults, or allows few open files; at the end no descriptor may be open, and with few allowed the outcome must be the same. Nontrivial: a fault took effect, or the limit applies.", traceMeasure, kernelAssume},
	"C15": {"a case is a world and a rewriting command; a scenario interrupts it by a kill, power loss, fault or full disk, then runs it twice more undisturbed on what is left; after the first repetition the files must be as if nothing had happened, and the second must change nothing. Nontrivial: an interruption took effect.", traceMeasure, powerAssume},
	"C16": {"a case is a world and any command line, or a library call; a scenario repeats it with other random seeds, clock, process id, inode numbers, directory order, time stamps, environment, host name, kinds of standard streams, number of processors, goroutine order and pool contents. Nontrivial: all.", traceMeasure, append(append([]string{}, kernelAssume...), libAssume...)},
	"C17": {"a case is 2-3 commands on the same files, at least one of them rewriting; a scenario is a seeded interleaving of their system calls, sometimes with a kill. Nontrivial: at least one switch.", traceMeasure, kernelAssume},
	"C18": {"a case is a sequence of 1-4 library calls (parses with any options, cut off, failing or panicking readers, files, changes, rendering) repeated 40-800 times and then twice, four and eight times as often, with a different input each time or the same, in one goroutine or each in its own; objects, bytes and goroutines left after garbage collection are measured four times and may not keep growing. Nontrivial: all.", "hash of the calls repeated", []string{"growth below half an object and four bytes per call is not seen", "memory outside the Go heap is not measured"}},
	"C19": {"a case is as in C10 or a lint run; a scenario gives the command a standard error that is closed, full, failing or full after some bytes (or such a standard output where the command prints nothing there), sometimes with faults; files, the other stream and the exit status must be as otherwise. Nontrivial: the command has something to say on the broken stream.", traceMeasure, kernelAssume},
	"C20": {"a case is a world, any command line and a settings file (yaml, json, toml; in the working or the home directory), usable (some set every word that is a string in the code), malformed or not readable; a scenario makes opening or reading it fail, at once or after a part, or shortens and interrupts the reads. An unusable one must stop the command with a message before it does anything, a usable one must change nothing. Nontrivial: all.", traceMeasure, kernelAssume},
	"C21": {"a case is any command, or a rewriting command with others beside it or one after it, on a world; a scenario makes a disk fill up or fail for good, or every call of a kind fail, or stops one command at a system call until the others have ended, or kills one (or the machine) and then runs the other on what is left. Every command must end, within 20 times the undisturbed system calls and 10 simulated seconds, and those beside or after another as if it had not been there. Nontrivial: a fault, stall or kill took effect.", traceMeasure, powerAssume},
}
