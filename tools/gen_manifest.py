"""Writes /verif/MANIFEST.json and keeps it in step with properties.jsonl."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOTE = {}
TECH = {}


def claim(id, tech, note):
    TECH[id], NOTE[id] = tech, note


SCHED_TRUST = (" Trusted: the virtual clock (shim/vt.c: interposed clock and poll calls of the real CPython/libuv process), CPython, libuv, TLC. "
               "Assumes wall clock and time zone do not jump and that the initialisation function does not span midnight.")
claim("C01", "TLA+ (TLC): mechanism model checked exhaustively, TLC-generated and random schedules run in the real process under virtual time, traces validated against Sched.tla",
      "Exhaustive for the mechanism within small constants; for the code, every recorded execution (random task sets, overruns, small batches of days, uptimes over one to two years, every way to pass a function) is a behaviour of Sched.tla." + SCHED_TRUST)
claim("C02", "TLA+ (TLC): trace validation of real executions under virtual time against Sched.tla, plus exhaustive mechanism model",
      "Earliness, lateness, order and ties are judged event by event; ties between tasks whose times are shifted into another day are not promised and not judged." + SCHED_TRUST)
claim("C03", "TLA+ (TLC): TimeExpr.tla defines the language and meaning of time texts; valid, mutated and malformed texts are run in the real process and judged by TLC",
      "Texts whose meaning the documentation leaves open (single digits, repeated units, blanks) are only required to either be refused or take one sensible meaning." + SCHED_TRUST)
claim("C04", "TLA+ (TLC): stop and failure clauses of Sched.tla, checked exhaustively on the mechanism model and on traces of real executions with signals at chosen virtual instants",
      "Stop requests are raised at instants aimed at waits, task bodies, overruns and exact due times; failing tasks of several exception types." + SCHED_TRUST)
claim("C06", "TLA+ (TLC): AcctSync.tla as trace specification of all gate calls of real executions over several days",
      "Intervals, windows, switches, failing and slow gates, starts around midnight and window edges. Intervals are rounded up to whole seconds." + SCHED_TRUST)

claim("C05", "TLA+ (TLC): Lifecycle.tla, exhaustive phase/switch model; scripts of API calls chosen by TLC's simulator run in the real process and validated event by event, the resulting schedule against Sched.tla",
      "All single calls in both phases and all switch states, and simulated scripts of several calls; refused trading calls are also checked to reach no gate." + SCHED_TRUST)
ACCT = (" Trusted: the harness's own trade gate (recorded call by call), CPython, TLC. Bounds: the model is exhaustive for a few orders and steps; "
        "the code is exercised by behaviours TLC generates from it and by random histories of up to a few dozen operations.")
for _i, _w in (("C07", "balance reports"), ("C08", "order book and query filters"), ("C09", "snapshots kept across later operations"),
               ("C10", "order submission, single and in batches"), ("C11", "reserved closeable quantity"), ("C12", "cancel requests")):
    claim(_i, f"TLA+ (TLC): Account.tla, checked exhaustively on AccountDesign and used as trace specification for histories of the real account API ({_w})",
          "Every recorded operation, gate call and view of the portfolio and the order book is judged against the specification's state." + ACCT)

claim("C20", "TLA+ (TLC): Events.tla (bus, queue, loop) with mechanism models QueueDesign and BusDesign checked exhaustively; their schedules and scripts replayed in the real code; concurrent histories accepted by linearisability search (QueueLin)",
      "Threads are switched at source lines of the code under test; ties of generic sort keys and one callback subscribed twice in the same way (or to a class and its base) are not judged. Trusted: CPython's atomic operations, TLC.")

claim("C21", "TLA+ (TLC): Retry.tla; the exhaustive model RetryDesign prints every behaviour, which is replayed against the real decorator under virtual time and judged by trace validation",
      "All outcome scripts up to the model's length and random ones up to 40 outcomes with nested and repeated calls. Trusted: the virtual clock, TLC.")

GATE = (" Trusted: the shim (virtual clock, interposed file system calls), the harness's renderer of the broker's files, CPython, TLC. A line of which only the line end is "
        "missing may be taken over or not; after a restart either a rejection or an update of the same order may win.")
claim("C13", "TLA+ (TLC): Writers.tla; system-call-level model WritersDesign checked exhaustively; up to three real strategies run with their file system calls interleaved along the model's "
      "behaviours, other schedules and an enumeration of two writers' interleavings; results and files validated",
      "Model: three writers, two requests each (smaller with locks). Code: the interleavings of open, lock, write, unlock, close and the sleeps between attempts, and of the directory creation at start. "
      "Trusted: the shim, the advisory locks of the kernel, TLC.")
claim("C14", "TLA+ (TLC): Gate.tla; mechanism model GateDesign checked exhaustively, its simulated behaviours and files cut at every byte replayed through the real process with the built-in gate, traces validated",
      "Model: all behaviours up to 7 (thorough 9) operations. Code: every recorded synchronisation is judged against the complete lines of the files." + GATE)
claim("C15", "TLA+ (TLC): Gate.tla with crash steps; the real process is killed before and half-way through every mutating system call of submissions, synchronisations, cancellations and start-ups, restarted, and the trace validated",
      "All crash points of the generated operations (process death; not power loss: an order line torn in half is not followed by further submissions)." + GATE)
claim("C16", "TLA+ (TLC): Gate.tla over several days; midnight placed at every reading of the clock within a request, lives over several days, simulated behaviours of GateDesign over three days, traces validated",
      "Model: two days exhaustively. Code: all clock readings of the generated requests." + GATE)


claim("C17", "TLA+ (TLC): Balance.tla; mechanism model BalanceDesign checked exhaustively against it, its simulated behaviours, random rewriting between the attempts and rewriting in the middle of "
      "a reading replayed through the real process with the built-in gate; every synchronisation validated",
      "Model: two synchronisations, five steps of the terminal (thorough three and seven). Code: the terminal empties or replaces files and appends (no in-place patching of old contents); "
      "a file that is missing may be retried or given up at once. Trusted: the shim, CPython, pandas' number parsing, TLC.")


claim("C18", "TLA+ (TLC): Tasks.tla (command lines, who is a task, the three requests); mechanism model TasksDesign checked exhaustively; its simulated behaviours, random process tables and changes of "
      "the table before every access of a request run through the real command line, every request judged",
      "Model: two tasks with launchers and one operator request, all interleavings (thorough also three tasks, two requests). Code: the whole command line path over a stand-in for psutil whose table "
      "changes during the request; signals are recorded, never sent. Requests naming both a name and a process id are not judged. Trusted: the stand-in's likeness to psutil, argparse, TLC.")


claim("C19", "TLA+ (TLC): Config.tla (meaning of the environment text, precedence of option, file and default, import search order, where printed text goes); mechanism model ConfigDesign checked exhaustively; "
      "environment texts it generates and random starts run through the command line in virtual time, every start judged",
      "Model: all texts of seven letters and all files of three assignments (thorough nine and four). Code: whole starts with random configuration files (written in many ways), options, "
      "environment texts, import directories and print calls; the settings are judged both as stored and by what they do (task times, synchronisations, gate, directories). Blanks at the end "
      "of values, texts that are not assignments and print(file=None) are not judged. Trusted: the virtual clock, CPython's importer, TLC.")

claim("C22", "TLA+ (TLC): Output.tla; mechanism model OutputDesign (buffers, openings, death between any two steps, other writers, several lives) checked exhaustively, its simulated behaviours and random "
      "histories of lives run in the real process, killed after and in the middle of writes; every look at the file and at standard output validated",
      "Model: three calls, two lives, one other writer (thorough four calls or three lives). Code: calls of all levels and forms, long and multi-line texts, threads, changed directories. Calls of "
      "several threads at once are not judged. Trusted: the shim, the kernel's appending writes, CPython's logging as used, TLC.")


def main():
    props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in TECH:
            checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": LEVEL.get(i, "model_checking"), "level_note": NOTE[i]})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all observation is through public interfaces, trade gates supplied by the harness, files, and interposed system calls."}
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
    print(len(checks), "claimed,", len(na), "not")


LEVEL, NA = {}, {}
if __name__ == "__main__":
    main()
