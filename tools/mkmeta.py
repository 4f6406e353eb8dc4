#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over "

P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, tech, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                  files=files, mechanism=mechanism, observe=observe, tech=tech, note=note, state=state))


F, S, B = "trappy/ftrace.py", "trappy/systrace.py", "trappy/base.py"

prop("C01", "A load reports exactly the events the traced machine recorded",
     "For every trace-cmd or systrace text, every event of a type that was asked for appears in that type's table "
     "exactly once with its task, pid, CPU, time and fields, and nothing else appears, whatever else the buffer holds. "
     "How the bytes arrive (sizes of reads, file ending without newline, machine low on memory) makes no difference.",
     ["inputs", "fault_sequences"],
     "every sequence of events of every supported kind from several CPUs, lost-event markers and foreign lines, "
     "every split of the file into reads, every answer of the memory probe",
     "The tests parse a few dozen fixed lines and one sample trace; they fix one order, one set of neighbours and whole-file delivery.",
     [F, S, B, "trappy/sched.py", "trappy/dynamic.py"],
     [("line recognition and header parsing", F), ("payload tokenising", B), ("array and string fields", B)],
     ["FTrace/SysTrace attributes' data_frame"], "traced machines, buffer contents and read delivery",
     "Fields of 38 event kinds; files up to a few hundred lines per run.")

prop("C02", "Event times are unique, in file order, and keep the traced stamp",
     "In a loaded trace no two events share a time, within a table times follow the order of the file whenever the "
     "stamps do, and every time equals the traced stamp but for a shift far below the stamp's resolution that only "
     "separates ties. The time of an event does not depend on normalisation (up to the base) or on being cached.",
     ["inputs", "configurations"],
     "every merge of per-CPU clocks that tie, drift, step back and jump; every subset of event types; parsed and cached loads",
     "Tests use a single pair of tied stamps; ties across types, in bursts, near large bases or after back-steps are not reached.",
     [F, B], [("tie breaking while parsing", F), ("index construction and normalisation", B)],
     ["data_frame index"], "clock faults of the traced CPUs and event arrival orders",
     "Stamps below 10^7 s.")

prop("C03", "The trace cache is transparent",
     "Over any history of loads with any arguments, parser registrations and caller edits, a load that uses the cache "
     "returns the same tables (values, types, columns, times) and the same metadata as parsing the trace would. "
     "Switching the cache on, off or removing files from it changes nothing but speed.",
     ["histories", "configurations", "inputs"],
     "every history of loads, registrations, partial removals and cache toggles over one or two traces",
     "Tests compare a handful of load pairs on one sample trace with one set of arguments.",
     [F, B, S], [("cache write and read back", F), ("cache metadata", F), ("per-class cached flags", B)],
     ["FTrace/SysTrace objects of repeated loads"], "histories of loads and cache states against a cache-less reference load",
     "No faults here; they are C04-C08.")

prop("C04", "A load that is killed or loses power harms no later load",
     "At whatever instant a load is killed, interrupted or cut off by a power failure, every later load of the same or "
     "another trace succeeds and returns what a first-time load returns. The trace itself is never modified.",
     ["crash_points", "histories"],
     "every file operation and line at which a load can stop, every subset of un-synced data that survives, every later history",
     "No test stops a load half-way; the only existing cache tests delete whole files between clean loads.",
     [F], [("order of cache writes; metadata last", F), ("validation of a cache before use", F)],
     ["later loads of the same trace"], "crash points, torn writes and power-loss images",
     "Power-loss model: un-synced file contents may be lost, truncated, zero-tailed or whole.")

prop("C05", "Damage to or failure of the cache's storage never breaks a load",
     "Whatever state the cache's files are in (missing, truncated, empty, garbage, wrong type) and whichever operation "
     "on them fails during a load, the load succeeds and returns what a cache-less load returns.",
     ["fault_sequences", "histories"],
     "every damage at rest, every errno at every cache operation, once or persistently, partial writes, concurrent removal",
     "Tests only remove the cache, or one file of it, and one un-writable directory.",
     [F], [("checksums and error handling around the cache", F)],
     ["the load's result"], "storage faults on every cache operation",
     "Corruption that forges well-formed metadata with matching sums is out of scope.")

prop("C06", "Concurrent loads of the same traces are all right",
     "Any number of processes or threads loading the same traces at the same time, some of them killed on the way, each "
     "get what a load on its own returns, and so does every load afterwards.",
     ["schedules", "crash_points"],
     "every interleaving, at file operations and lines, of 2-4 loaders with different arguments",
     "All tests run one load at a time.",
     [F, B, S], [("atomic replacement of cache files", F), ("state kept on classes while parsing", B)],
     ["each loader's result"], "interleavings of loaders at system calls and source lines",
     "A system call is atomic; simulated processes share module memory.")

prop("C07", "A changed trace is never answered from what was cached before",
     "When the bytes of a trace change by any means, at any time, with any modification time and size, a load made "
     "after the change returns what the new bytes say.",
     ["histories", "schedules"],
     "every history of loads and content changes (rewrite, rename over, link retarget, append, roll back), including during a load",
     "One test changes a trace once between two loads; equal sizes, older mtimes, mid-load changes are not reached.",
     [F], [("content hash of the trace in the cache metadata", F)],
     ["loads after the change"], "trace changes placed between and inside loads",
     "What a load overlapping the change returns is not constrained; no MD5 collisions.")

prop("C08", "Input that cannot be read raises; it is never a silently partial trace",
     "If the trace file, trace-cmd or temporary storage fails part-way, the load raises an error or returns the complete "
     "trace, never a part of it. It leaves no temporary file behind and poisons no later load.",
     ["fault_sequences", "histories"],
     "every failing read, open, write, child exit status or signal at every position, text, systrace and .dat input",
     "Tests cover a missing file and a missing trace-cmd only.",
     [F, S], [("exit status of trace-cmd", F), ("temporary text trace", F)],
     ["the load's outcome; the temporary directory; later loads"], "faults of the input path",
     "trace-cmd that dies reports it by its exit status.")

prop("C09", "Loading a trace changes no file but its own cache and temporary files",
     "Whatever the trace and the files around it are called, however it is addressed and whatever fails meanwhile, "
     "loading it creates, changes or removes nothing outside the trace's own cache and the files the load itself made.",
     ["inputs", "fault_sequences", "crash_points"],
     "every name, path style, neighbour set, storage fault and crash point",
     "Tests use one name in one clean directory and never look at the neighbours.",
     [F, S, B], [("cache path derivation", F), ("removal of stale cache files", F)],
     ["the file tree around the trace"], "names, neighbour files, storage faults and crashes with every file operation watched",
     "A link the user put inside the cache under the name of a cache file is not considered.")

prop("C10", "Callbacks see every event once, in trace order, whatever else happens",
     "A pass over a trace with callbacks calls the callback of each event exactly once, merged over all types in the "
     "order of the trace file, with that event's own data. Exceptions, nested or concurrent passes do not disturb it or the trace.",
     ["schedules", "fault_sequences", "inputs"],
     "every set of types, every point at which a callback raises, nests or is interrupted, every interleaving of concurrent passes",
     "One test feeds two event types with strictly increasing stamps to one undisturbed pass.",
     [B, "trappy/bare_trace.py"], [("k-way merge by line number", "trappy/bare_trace.py")],
     ["callback invocations"], "callback failures and interleaved passes",
     "No traced field is named Index.")

prop("C11", "What a load parses is exactly what the registrations before it say",
     "After any history of registering and unregistering event parsers and of failed loads, a load has exactly the "
     "tables its scope, events and the current registrations give it, each with exactly its events. Traces loaded earlier do not change.",
     ["histories", "fault_sequences"],
     "every history of registrations, clashes, re-registrations, unregistrations and loads that fail at any point",
     "Tests register a few parsers once in a fresh state and never after a failure.",
     ["trappy/dynamic.py", F, S, B], [("class registries per scope", F), ("word to class resolution", F)],
     ["attributes of loaded traces"], "registration histories with failing loads, against a model of the registry",
     "One thread registers and loads; a name is registered in one scope at a time.")

NOT_APPLICABLE = [
    {"property": "N01", "reason": "A pure function of one text: it replaces eight addresses, and then signs the file with a class "
     "(IPython.nbformat.sign.TrustNotebookApp) that left IPython years ago, so the script cannot start in this or any current "
     "environment. There is no schedule, clock, fault or history for the property to depend on; what plots a page loads is simulated in C14, C15 and C24."},
    {"property": "N02", "reason": "Layout and painting of pixels happen in a real browser, in d3, dygraphs and jQuery: code outside "
     "trappy and outside any simulator that can be built here. What trappy's scripts ask of them is simulated in C24 and C25."},
]


def main():
    exec(open(os.path.join(HERE, "tools", "more_props.py")).read(), globals()) \
        if os.path.exists(os.path.join(HERE, "tools", "more_props.py")) else None
    claimed = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"],
                            "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
            if not p["tech"]:
                continue
            claimed.append({
                "property": p["id"], "quick_cmd": "./dst/check.py %s --tier quick" % p["id"],
                "thorough_cmd": "./dst/check.py %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": TECH + p["tech"], "level": "exploration", "level_note": p["note"]})
    doc = {"version": 1, "setup_cmd": "./dst/setup.sh",
           "checks": claimed,
           "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
