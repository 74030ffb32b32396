#!/usr/bin/env python3
# Writes MANIFEST.json. Run by hand after adding a check.
import json,os
here=os.path.dirname(os.path.abspath(__file__))
SK="real mustache binary on a simulated Linux kernel; seeded search over "
LS="instrumented library under a seeded thread scheduler; seeded search over "
NOTE_CLI=("Searched, not proved: some thousand seeded executions per quick run, every one exactly repeatable. Trusts the simulated kernel (sim/sys.go, sim/fs.go; its answers are compared with the host kernel by --conformance) "
 "and, for validity and formatted text, the library of the same tree.")
NOTE_LIB=("Searched, not proved: seeded schedules and histories, with a switch possible before every statement of the library and the race detector for what lies within. "
 "The expected result of a call is what the call gives alone in a fresh process of the same build.")
checks={
"C01":(SK+"kills, failing and short calls, full disks, with an observer and slow readers after every system call",NOTE_CLI),
"C02":(SK+"power losses and what the disk kept of unsynchronised data and directory changes",NOTE_CLI+" Durability model in sim/fs.go: fsync makes data durable, unsynchronised changes are kept or lost independently."),
"C03":(SK+"failing, short and interrupted calls, full disks, broken standard output; the promise of exit status 0 checked on the outcome",NOTE_CLI),
"C04":(SK+"worlds, faults and kills; the whole file system compared before and after",NOTE_CLI),
"C05":(SK+"command lines, worlds, faults and kills; the file system compared after every mutating call",NOTE_CLI),
"C06":(SK+"short, interrupted and slow system calls, compared with the undisturbed run",NOTE_CLI),
"C07":("real library fed by a simulated reader and by the simulated kernel; seeded search over deliveries, failures and options",NOTE_LIB),
"C08":(LS+"interleavings of concurrent parses, compared with each call alone; race detection",NOTE_LIB),
"C09":(LS+"call histories in one process, compared with each call alone in a fresh one",NOTE_LIB),
"C10":(SK+"sequences of good and failing files, compared with one invocation per file",NOTE_CLI),
"C11":(LS+"interleavings of readers of one configuration; race detection",NOTE_LIB),
"C12":(LS+"cut-off points, schedules and histories around cut-off parses",NOTE_LIB),
"C13":(SK+"faults bound to single files, compared with one invocation per file under the same faults",NOTE_CLI),
"C14":(SK+"faults and small descriptor limits; descriptor table inspected at the end",NOTE_CLI),
"C15":(SK+"interruptions by kill, power loss, fault or full disk followed by repetitions",NOTE_CLI),
"C16":(SK+"random seeds, clocks, process and inode numbers, directory orders, environments and goroutine orders, compared with one another",NOTE_CLI),
"C17":(SK+"interleavings of the system calls of two or three processes on the same files",NOTE_CLI),
"C18":("real library in one long-lived process; seeded search over histories of good, failing, cut-off and panicking calls; live heap and goroutines measured between rounds","Searched, not proved. Growth is told from noise by measuring at four points and, when in doubt, over a twenty times longer history."),
"C19":(SK+"broken standard error or standard output and faults, compared with the run that has none",NOTE_CLI),
"C20":(SK+"settings files, good, bad or failing while they are opened and read",NOTE_CLI),
}
checks["C21"]=(SK+"failures that go on for ever, and commands stopped, killed or cut off by a power failure while others work on the same files; bounded number of system calls and bounded simulated time, which runs ahead while every process sleeps",NOTE_CLI)
extra=os.path.join(here,"extra_checks.json")
if os.path.exists(extra):
    for k,v in json.load(open(extra)).items():
        checks[k]=(v[0].replace("SK:",SK).replace("LS:",LS),v[1].replace("NOTE_CLI",NOTE_CLI).replace("NOTE_LIB",NOTE_LIB))
pure="a sequential pure function of its input: no schedule, time, I/O, fault, crash or history takes part in it, so a simulator has nothing to decide; "
na={
"N01":pure+"generated inputs against a round-trip oracle would be property-based testing, not simulation.",
"N02":pure+"C15 only needs it as a premise and selects files for which it holds.",
"N03":pure+"it needs a second implementation of the grammar (Logstash's), which is not available offline.",
"N04":pure+"fuzzing is the technique for it. (C07, C09 and C12 see panics that depend on delivery, history or cut-off.)",
"N05":pure+"(C09 and C11 check that positions do not change with history or sharing.)",
"N06":pure+"(C11 checks the helpers under concurrency only.)",
"N07":pure+"(C09 checks that visiting one tree does not change another.)",
"N08":pure+"(C03 compares lint's verdict with an independent count of missing and repeated ids, on the worlds it visits.)",
}
m={"version":1,"setup_cmd":"./check.sh --build",
 "hooks":{"guard":"none in /repo: seams are put in at build time with go build -overlay (files of /verif/overlay over the Go runtime, an instrumented copy of the library for the schedule checks)",
  "enable":"check.sh builds /repo's working tree with -overlay; nothing in /repo is changed","source_commits":[]},
 "checks":[dict(property=k,quick_cmd="./check.sh "+k,thorough_cmd="VERIF_TIER=thorough ./check.sh "+k,technique="deterministic simulation with fault injection: "+t,level="exploration",level_note=n) for k,(t,n) in sorted(checks.items())],
 "not_applicable":[dict(property=k,reason=v) for k,v in na.items()],
 "notes":"./check.sh --replay FILE repeats a recorded violation; ./check.sh --selftest checks that scenarios repeat exactly."}
ids=[json.loads(l)["id"] for l in open(here+"/../properties.jsonl")]
for i in ids:
    if i not in checks and i not in na:
        m["not_applicable"].append(dict(property=i,reason="no check has been built for it yet"))
json.dump(m,open(here+"/../MANIFEST.json","w"),indent=1); open(here+"/../MANIFEST.json","a").write("\n")
