#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, what each check enumerates (asked from the
harnesses' last evidence) and which checks catch which planted bugs."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "checks")]
import props, registry

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
# id: (what is compared with what, why it reaches further than tests)
ORACLE = {
"C01": "a difference equation evaluated by the harness on the whole history of samples, one reference per filter; switches keep the samples and restart from the last output",
"C02": "the text written so far, cut into lines; the writer is run in the middle of polls by a replaced `read`, and may stop anywhere in a line",
"C03": "the list of completed measurements of each record (with the parts before pauses), from which count, total, average, minimum, maximum and last are recomputed after every call; `gettimeofday` and `clock` are replaced",
"C04": "the bytes expected in every file from the history of openings and traces, compared after every operation; failed openings and writes are injected",
"C05": "class, code, text and details given by the raiser, compared at the catcher, by value, by base reference and after copies",
"C06": "a table of registrations walked by the harness at each run; the called functions act on the calendar in the middle of the run",
"C07": "the commands recorded by the thread; the module's `threading` and `time` are replaced by a scheduler (mc/pysched.py) that takes every switch at every source line within the preemption bound. Deadlocks and lost wake-ups are executions without enabled thread",
"C08": "the definitions (rotation matrices of elementary rotations, orthonormality, inverses)",
"C09": "the list of what was recorded, by value, compared after later changes of the entities and after reading the files written",
"C10": "a model of the signals of the tasks; dynamic_graph is replaced by mc/dgstub.py, whose entities record commands and plugs",
"C11": "the set of objects whose post began before the end of the read and which are not older than the last one whose post ended before its start; boost mutexes and `gettimeofday` are replaced by points where fibers (mc/fibers.hh) switch, copies of the object are interruptible",
"C12": "the hierarchy solved by orthogonal projections on explicit bases (no pseudo-inverse shared with the code), rank decided by the same threshold; histories against the solver freshly built with the same content",
"C13": "the concatenation of the features' current values; the order of the readings is enumerated because outputs share caches",
"C14": "the closed form of each gain, from the parameters the last command defines",
"C15": "vectors of booleans with a default tail, and a small reader of the text format written in the harness",
"C16": "the set of living objects; uses of dead names must be errors, never accesses (address sanitizer)",
"C17": "a second feature built afresh with the current inputs, and the documented error and Jacobian of each feature",
"C18": "finite differences of the feature's own error along the motion of the inputs, compared with Jacobian times velocity, and with its error derivative",
"C19": "the recurrence evaluated on the recorded history; jumps of time, repeated readings and failures of inputs are steps",
"C20": "the integration scheme of the documentation with its saturations, evaluated from the state given to the last command",
"C21": "the mathematical function of the current inputs of each operator, in every order of readings and changes",
"C22": "a two-state automaton per event (edge, up, down, repetitions), and tables of calls by period",
"C23": "the structure from which the text was printed; for damaged texts, termination and no access out of bounds",
"C24": "the tables filled by the commands; conversions are composed with their inverse and with rotation matrices",
"C25": "the formula of each controller; an admittance is integrated by the harness in its documented frames",
"C26": "the formula of each limiter or generator; idempotence of the neck limitation",
"C27": "the Kalman recursion in Joseph-free textbook form, and the Madgwick gradient step in quaternion algebra, restarted at each change",
"C28": "the Penrose conditions and the normal equations, checked by products, not by another inverse",
"C29": "the list of lines, the list of events with their delays, and the instant of the first reading at each time",
"C31": "a list of the motions asked for and of what each viewer must have been shown; the lines of the log",
"C30": "the state of each library (open, controller created, destroyed) and of the flag started; the commands given to Python are run by a real interpreter",
}
cost = {}
out = [HEAD, "\n## What each check decides\n"]
for p in props.PROPS:
    pid = p["id"]
    cfg = registry.CHECKS[pid]
    out.append("\n### %s. %s\n" % (pid, p["title"]))
    out.append("\n* Runs: `checks/%s` on %s.\n" % (cfg["harness"][0], ", ".join("`%s`" % f for f in p["anchors"]["files"])))
    out.append("* Oracle: %s.\n" % ORACLE[pid])
    f = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        for s in e["coverage"]["suites"]:
            out.append("* Suite `%s`: %s — %d executions in the quick check.\n" % (s["name"], s["bounds"], s["executions"]))
    if cfg.get("assumptions"):
        out.append("* Assumptions: %s.\n" % "; ".join(cfg["assumptions"]))
    out.append("* Tests cannot: %s\n" % p["why_tests_cant"])
out.append("\n## Planted bugs\n\nEach was caught by the quick check of its property (exit 1 and its `VIOLATION` line), after its demonstration was\n"
           "confirmed to pass on the unchanged tree and to fail with the patch.\n\n| bug | caught by | needs |\n|---|---|---|\n")
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    out.append("| %s | %s | %s |\n" % (m.split("/")[-2], j["property"], j["needs"]))
out.append("\n" + TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
