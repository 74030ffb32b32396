import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None,hook=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))
AF="internal/atomicfile/atomicfile.go"; F="internal/app/format/format.go"; L="internal/app/lint/lint.go"; C="internal/app/check/check.go"
SY=["system calls of the process","content of the files as another process sees it"]
p("C01","Rewriting a file in place is all or nothing at every instant",
 "While `format --write-to-source` or `lint --auto-fix-id` works, anybody who opens one of its files by name at any moment finds the file there with either the complete old content or the complete new content, and so does a reader that opened it earlier and reads slowly. This holds through failing system calls, a full disk, and the command being killed at any point.",
 ["inputs","crash_points","fault_sequences","schedules"],"every file content and world (links, modes, bystanders), every point of a kill, every sequence of failing or short system calls, every moment of observation",
 "The tests run the commands once, undisturbed, and look at the result; no test observes a file during a rewrite, kills the process or makes a call fail.",
 [F,L,AF],[("write to a temporary file, fsync, rename over the target",AF)],SY)
p("C02","A power failure leaves every rewritten file complete",
 "If the machine loses power at any point during or after `format --write-to-source` or `lint --auto-fix-id`, each file named on the command line exists afterwards with the complete old or the complete new content, and no other file is damaged. This holds whatever subset of the unsynchronised data and directory changes the disk kept.",
 ["crash_points","fault_sequences","inputs"],"every power-loss point, every subset and order of unsynchronised writes and directory operations that may reach the disk, with failing write-back before it",
 "No test can cut the power; what is durable is not visible to a test that reads the page cache.",
 [F,L,AF],[("fsync before rename",AF)],["durable state of files and directories"])
p("C03","Exit status 0 means that everything asked for has been done",
 "If a command exits with status 0, every file named on its command line existed, was read to its end and is valid; `format` delivered the complete formatted text of all files to standard output; every file to be rewritten has its complete new content; and `lint` had nothing to report. Any call that fails or falls short on the way leads to a non-zero status instead.",
 ["fault_sequences","inputs","configurations"],"every command, file set, state of standard output and disk, and sequence of failing, short or interrupted system calls including errors that appear only at close",
 "The tests use a healthy file system and an in-memory output; no test makes a read, write, fsync, rename or close fail.",
 [F,L,C,AF,"cmd/mustache/main.go"],[("error results collected per file and returned to the command",F),("write errors of standard output returned",F)],["exit status","standard output","content of the files"])
p("C04","A rewrite changes the content of its files and nothing else",
 "Rewriting a file keeps its type, permission bits and ownership and the links through which it was reached; no other file or directory entry is created, changed or removed, and a command that ends by itself leaves no auxiliary file behind, whether it succeeds or fails. (After a kill, or if removing it fails, an auxiliary file may stay; hard links are excluded.)",
 ["configurations","fault_sequences","inputs"],"every layout of files, symbolic links, modes, owners and neighbouring files, every sequence of failing calls, any file name clash with existing entries",
 "The tests rewrite one plain file in a temporary directory and compare its content only.",
 [F,L,AF],[("mode and owner carried over to the new file, symbolic links resolved, temporary file removed on failure",AF)],["the whole file system before and after"])
p("C05","Files that must not change are not written to",
 "`check`, `lint` and `format` without a rewriting flag (or with one that is turned off) write to no file at all; a rewriting command writes neither to a file that does not parse, that it may not read or write, that needs no fix (`lint --auto-fix-id`), nor to any file it was not given; and a command that fails to start writes to nothing. This holds under failing calls and kills at any point.",
 ["inputs","configurations","fault_sequences","crash_points"],"every command line, every valid or invalid content, permission and settings file, every fault and kill",
 "The tests check output for a few inputs; that nothing was written anywhere, on any path, under any fault, is not looked at.",
 [F,L,C,"internal/app/app.go"],[("write only after a successful parse and only when something was fixed",L),("write only with the flag",F)],["every mutating system call","the file system after each of them"])
p("C06","Short, interrupted and slow system calls make no difference",
 "However the operating system splits reads and writes, however often it interrupts calls and however long they take, a command produces the same output, diagnostics, exit status and files as when every call completes at once.",
 ["schedules","fault_sequences","inputs"],"every pattern of short reads, short writes and interrupted calls over every command and input",
 "On a local file system small reads and writes practically never fall short in a test run.",
 [F,L,C,AF,"logstash_config.go"],[("reads until EOF, writes through os.File which completes short writes",AF)],["outputs, exit status, files"])
p("C07","How the bytes of a configuration arrive does not matter",
 "Parsing from a reader or from a file gives exactly the result of parsing the same bytes in one piece, however they are divided, with empty reads and with the end reported together with the last bytes or after them. If the source fails before its end, the failure is returned as an error and no configuration is returned, however much was read.",
 ["schedules","inputs","fault_sequences"],"every configuration valid or not, every division into reads, every offset and kind of read failure, every option set",
 "The tests read from strings and local files, which deliver everything at once and never fail.",
 ["logstash_config.go"],[("ParseReader reads everything before parsing and returns the read error","logstash_config.go"),("ParseFile","logstash_config.go")],["result and error of ParseReader and ParseFile"])
p("C08","Concurrent parses do not affect each other",
 "Any number of goroutines may parse at the same time, with any inputs and options: each gets exactly the configuration, warnings and error it would get alone, and the farthest failure reported to anybody at any time is one that a single parse recorded, never a mixture. No call accesses memory shared with another without synchronisation, and no call blocks forever, also when a source is slow or itself parses something.",
 ["schedules","inputs"],"every interleaving of the statements of concurrent parses and queries, every set of inputs and options",
 "The tests parse sequentially; the Go test runner does not control the interleaving of goroutines.",
 ["logstash_config.go","logstash_config_helper.go","parse_error_helper.go"],[("per-parse state in the parser value; farthest failure published as an immutable slice under a mutex","parse_error_helper.go")],["results, errors, GetFarthestFailure, data races"],
 [("farthestFailure","farthest failure of the most recent parse","parse_error_helper.go"),("g","grammar tables shared by all parses","logstash_config.go")])
p("C09","A call does not depend on what was called before",
 "In one process, the result of a library call is the same as in a fresh process, whatever was parsed, rendered or changed before; a returned configuration or error stays what it is whatever is called afterwards, also when the caller reuses the input buffer or changes another result. The farthest failure is that of the latest parse (or, if that was cut off before it started, unchanged).",
 ["histories","inputs"],"every sequence of parses with any inputs, options and errors, changes to results, and reuse of buffers",
 "Tests assert single calls; the order of calls and aliasing between results, inputs and package state is not varied.",
 ["logstash_config.go","logstash_config_helper.go","parse_error_helper.go","ast/ast.go","ast/astutil/apply.go"],[("no package-level state is consulted by a parse; farthest failure reset at its start","logstash_config_helper.go")],["results of every call and their content at the end"],
 [("farthestFailure","farthest failure of the most recent parse","parse_error_helper.go")])
p("C10","What is reported about a file is about that file",
 "The report of `check` and `lint` on several files is the reports on each file alone put together in order, with the same exit status as the worst of them; an unreadable, missing or invalid file neither hides, adds to nor changes what is said about another. `format` stops at the first file that fails: what it prints and writes for the files before it, and what it reports about that file, is the same as for each of them alone.",
 ["inputs","histories","configurations"],"every sequence of valid, invalid, unreadable, missing and directory arguments, in every order",
 "The tests run one or two fixed files; state carried from one file to the next shows only in particular sequences.",
 [C,L,F,"parse_error_helper.go"],[("loop over the arguments collecting errors with the file's name",C)],["standard error, standard output, exit status"])
p("C11","A configuration can be read by many goroutines at once",
 "Rendering a configuration, asking its nodes for positions, names, values and ids, and the quoting helpers only read: any number of goroutines may do so on one shared configuration at the same time, each gets what it would get alone, the configuration does not change, and there is no data race.",
 ["schedules","inputs"],"every interleaving of read-only operations on every parsed configuration",
 "The tests call these functions from one goroutine and compare strings; writes to shared nodes or caches would go unnoticed.",
 ["ast/ast.go","ast/ast_helper.go","ast/errors.go","ast/astutil/quote.go","ast/astutil/escape.go"],[("methods with value receivers that build new strings","ast/ast.go")],["results, deep content of the shared configuration, data races"])
p("C12","A parse that is cut off leaves nothing behind",
 "If a parse ends early, because its expression limit is reached, a syntax error's panic is passed on to the caller (Recover(false)), or its reader fails or panics, every other parse in the process, concurrent or later, gives the result it gives alone and can still be started and completed.",
 ["crash_points","schedules","histories"],"every point at which a parse can be cut off, every later or concurrent call",
 "The tests cut no parse off; leaked locks, half-updated state or pooled objects show only in a later call.",
 ["logstash_config.go","parse_error_helper.go"],[("parser state is local to the call; the lock is released on every path","parse_error_helper.go")],["results of the other calls"])
p("C13","A fault on one file is reported and stays with that file",
 "If looking at, opening, reading, closing or rewriting one of several files fails, the command does not crash, reports it in words, exits non-zero, and treats the other files exactly as if they had been given alone: same report, same output, same resulting content. (`format` ends with the first file that fails; the files after it stay as they were.)",
 ["fault_sequences","configurations","inputs"],"every position of the failing file, every failing operation and error code, every command",
 "The tests cover a missing file; a file whose stat, read, write or close fails cannot be arranged in them.",
 [C,L,F],[("errors collected per file, loop continues",C)],["standard error, exit status, files"])
p("C14","No open file is left behind",
 "When a command or a library call that opened files has ended, successfully or not, all of them are closed, and the number of files open at the same time does not grow with the number of arguments.",
 ["fault_sequences","inputs","histories"],"every number of files, valid or not, every failing call, cut-off parses, a small limit on open files",
 "A leaked descriptor is invisible to a test that opens a handful of files.",
 [F,L,C,AF,"logstash_config.go"],[("deferred Close","logstash_config.go"),("close on every path",AF)],["descriptor table of the process"])
p("C15","Repeating an interrupted rewrite finishes the job",
 "After `format --write-to-source` or `lint --auto-fix-id` was interrupted by a kill, a power failure, a failing call or a full disk, running the same command again under normal conditions succeeds and leaves every file as one undisturbed run would have; running it once more changes nothing further. (For files whose formatted form is itself stable under formatting.)",
 ["crash_points","fault_sequences","histories"],"every interruption point and fault, every leftover state on disk, every random seed of the repetition",
 "The tests never run a command on what an interrupted one left behind.",
 [F,L,AF],[("old content intact until the rename; temporary names do not block later runs",AF)],["files after the repetition"])
p("C16","Same input, same result",
 "Output, diagnostics, exit status and rewritten files of a command, and the result of a library call, depend on nothing but the arguments, the files' contents and the settings: not on random seeds, the clock, process id, inode numbers, directory order, scheduling, time stamps, the name of the host, what kind of terminal, pipe or file the standard streams are, or unrelated environment variables.",
 ["schedules","configurations","inputs"],"every seed of map order and random numbers, clock, pid, inode and directory order, environment",
 "A test that passes once may have been lucky with map iteration order or time; the tests do not control these.",
 [F,L,C,"logstash_config.go","ast/ast.go"],[("no map iteration, clock or randomness on the way to a result","ast/ast.go")],["outputs, exit status, files, deep content of results"])
p("C17","Commands running at the same time do not harm each other",
 "If several commands work on the same files at the same time, at least one of them rewriting, then at every moment each file is complete (old or new), none of the commands fails or crashes because of another, none prints anything but complete old or new text, and when all have ended the files are as one of them alone would have left them, with nothing else changed.",
 ["schedules","crash_points"],"every interleaving of the system calls of two or three processes, with a kill of one of them",
 "The tests run one command at a time.",
 [F,L,AF],[("unique temporary file per process, atomic rename",AF)],SY)
p("C18","Nothing accumulates in a long-lived process",
 "However often a process parses, renders or changes configurations, successful or not or cut off, the memory it retains and the number of goroutines it has do not grow with the number of calls once results are dropped.",
 ["histories","inputs"],"every sequence of calls repeated without bound, including failing and cut-off parses",
 "Tests end after one call; growth shows only over many.",
 ["logstash_config.go","parse_error_helper.go","ast/ast.go"],[("no caches; one farthest failure kept","parse_error_helper.go")],["live heap and goroutines between rounds"],
 [("farthestFailure","the only state kept between parses","parse_error_helper.go")])
p("C19","Diagnostics that nobody can read change nothing else",
 "If standard error (or the standard output of a command that prints nothing there) is closed, full, failing or a broken pipe, a command still does all of its work: files are rewritten or left alone exactly as otherwise, the other stream is the same, and the exit status is the same (or the process ends by SIGPIPE after the work is done).",
 ["fault_sequences","configurations"],"every state of standard error, every command and input with something to report",
 "The tests capture standard error in memory, which never fails.",
 [F,L,C,"internal/app/app.go","cmd/mustache/main.go"],[("diagnostics printed once, after all files are done","cmd/mustache/main.go")],["files, standard output, exit status"])
p("C20","A settings file that cannot be used stops the command before it acts",
 "If the settings file of mustache (in the working or the user's configuration directory) cannot be opened, read to its end or understood, the command says so, exits non-zero and neither prints results nor touches a file; it never goes on with half of the settings. A settings file that can be used is read completely however the reads are split, and changes nothing about what the commands do: flags come from the command line alone.",
 ["fault_sequences","configurations","inputs"],"every place and format of the settings file, every content good or bad, every failing, short or interrupted call on it, every command",
 "The tests run without a settings file.",
 ["internal/app/app.go"],[("initConfig: only a missing file is ignored, every other error ends the program","internal/app/app.go")],["exit status, standard error, standard output, the file system"])
p("C21","Every command comes to its end, and none waits for another",
 "A command ends by itself after a number of system calls and a time that are in proportion to its work, whatever fails and for how long it goes on failing: a full or broken disk, or a kind of call that always fails, ends in an error, not in waiting or trying again for ever. No command waits for another: one that was stopped in the middle of its work, or killed, or lost by a power failure, neither delays the others on the same files nor changes what they do and say.",
 ["fault_sequences","crash_points","schedules"],"every persistent failure, every point at which another command was stopped or killed, every command that follows",
 "The tests run one command that nothing happens to; that one which waits does end cannot be seen by waiting.",
 [F,L,C,AF],[("no locks, no retries: every error ends the work on a file",AF)],["number of system calls and simulated time; exit status, outputs and files of the others"])
def n(id,title,st,over,q,why,files,mech):
    p(id,title,st,over,q,why,files,mech)
n("N01","Formatting preserves the meaning of a configuration","Parsing the formatted text of a valid configuration gives a configuration equal to the original in everything but layout.",["inputs"],"every valid configuration","Only sample configurations are tested.",["ast/ast.go","logstash_config.peg"],[("String methods","ast/ast.go")])
n("N02","Formatting is stable","Formatting formatted text gives the same text.",["inputs"],"every valid configuration","Only sample configurations are tested.",["ast/ast.go"],[("String methods","ast/ast.go")])
n("N03","The parser accepts the configuration language of Logstash","A text is accepted if and only if the grammar of Logstash's own parser accepts it.",["inputs"],"every text","Only sample configurations are tested.",["logstash_config.peg","grammar.treetop"],[("PEG grammar","logstash_config.peg")])
n("N04","Every input ends in a result","Parsing any bytes ends with a configuration or an error, never with an uncaught panic or without end.",["inputs"],"every byte sequence","Only sample configurations are tested.",["logstash_config.go"],[("recover in the parser","logstash_config.go")])
n("N05","Positions in the tree are those of the source","Each node's position is where its text starts in the input.",["inputs"],"every valid configuration","Only sample configurations are tested.",["logstash_config_helper.go"],[("astPos","logstash_config_helper.go")])
n("N06","Quoting and escaping round-trip","Unescape(Escape(s)) is s, and a quoted string parses back to the value it was made from, or quoting is refused.",["inputs"],"every string and quote type","Only sample strings are tested.",["ast/astutil/quote.go","ast/astutil/escape.go"],[("Quote, Escape","ast/astutil/quote.go")])
n("N07","ApplyPlugins visits every plugin once and applies every change","Each plugin of the tree is visited exactly once in order, and deletions, replacements and insertions made through the cursor appear in the result.",["inputs","programs"],"every tree and visitor","Only sample trees are tested.",["ast/astutil/apply.go"],[("cursor iteration","ast/astutil/apply.go")])
n("N08","Lint finds every plugin without id and every duplicate id","Lint reports exactly the plugins that lack an id and the ids used more than once.",["inputs"],"every valid configuration","Only sample configurations are tested.",["internal/app/lint/lint.go"],[("ID collection",L)])
open(__import__("os").path.dirname(__import__("os").path.abspath(__file__))+"/../properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["title"]
