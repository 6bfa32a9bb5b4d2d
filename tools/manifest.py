#!/usr/bin/env python3
"""Writes MANIFEST.json. Run by hand after changing what is claimed."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": ("round-trip monitor over encode/decode executions", "Observes every string of up to 3 (thorough: 4) characters over a 22-character alphabet in ten positions, plus random hostile values; keys unique, indent 1-8, nesting up to about 60."),
 "C02": ("round-trip monitor with folding and expansion", "Random chains, collisions, depths 0..unlimited; values whose keys are not dotted identifier paths."),
 "C03": ("online comparison of the complete encoder output with an independent layout model", "Trusts the layout model in mon/src/spec.rs; keys unique."),
 "C04": ("token monitor against the quoting and number rules", "All strings of up to 3 (thorough: 4) characters over 22 characters in nine positions, plus random Unicode, near-numbers and doubles."),
 "C05": ("folding model compared with every encoder output", "Trusts the folding model in mon/src/spec.rs; keys unique."),
 "C06": ("declared-versus-seen count monitor on event streams, and count/row mutants that must be rejected", "Mutants of canonical and free-form documents; hostile line soups for the accepted side."),
 "C07": ("fault injection at every line with a line-number monitor", "One fault per document; line number read from the error text."),
 "C08": ("conservation monitor: unique markers in every key, item and cell must reappear", "Mutated marked documents; a marker lost on an accepted document is a violation."),
 "C09": ("strict/lenient differential monitor plus relaxation mutants", "Soups, mutants and each stated relaxation."),
 "C10": ("free-form writer whose value is known, decoded and compared", "Trusts the writer in mon/src/liberal.rs to write valid documents."),
 "C11": ("event grammar checker and agreement monitor over all entry points", "Rows of one table keep one key order on the encoding side."),
 "C12": ("schedule-controlled executor recording every poll, compared with the synchronous run", "Random interleavings, drops and spurious polls on one thread."),
 "C13": ("trace monitor over line reads and returned events", "Logging line iterator; look-ahead at most one line."),
 "C14": ("crash, overflow, allocation and CPU-time monitors over hostile inputs", "Documents up to 64 KiB with deep nesting, larger when shallow; 8 MiB stack; overflow and debug assertions compiled in."),
 "C15": ("expansion model compared with every decode", "Unique raw keys per object."),
 "C16": ("call-history monitor: recorded replacer calls against a model traversal", "Deterministic replacers."),
 "C17": ("normal-form monitor on values with non-finite numbers", "JSON numbers as parsed by serde_json."),
 "C18": ("independent strict JSON reader over both writers, and malformed event streams", "Every Unicode scalar value; malformed sequences of the stated classes."),
 "C19": ("black-box monitor of the real binary against the library", "Random option lists, sources, targets; fresh scratch directory per case."),
 "C20": ("black-box monitor of exit status, streams and output file on failures", "Invalid documents, bytes and arguments; run as an unprivileged path layout in scratch directories."),
 "C21": ("write-fault injection on the real binary (size limit, full device, closed pipe, bad targets)", "Every byte limit of small outputs, sampled limits of large ones."),
 "C22": ("repetition, thread and process agreement monitor", "8 threads with shared inputs and panicking callbacks; separate processes."),
 "C23": ("escape monitor in every quoted position", "Every character after a backslash over ASCII and samples of Unicode; all bodies of up to 4 (thorough: 5) characters over a small alphabet."),
 "C24": ("token typing monitor in five positions", "Every token of up to 5 (thorough: 6) characters over a number-like alphabet, plus random ones."),
 "C26": ("decode-encode-decode relation monitor over accepted documents and canonical texts", "Unique keys; with folding, values without dots in keys."),
 "C27": ("JSON-TOON-JSON relation monitor with an independent strict JSON reader", "Numbers up to 16 units in the last place (rounding of the JSON parser in use); nesting at most 100."),
 "C28": ("event sequences fed to the builder under an independent stack machine", "Declared lengths are not compared with element counts."),
 "C29": ("differential monitor between unset and explicitly set options, and the layout model", "All entry points without async; the async ones are compared with these by C12."),
 "C30": ("allocation monitor and event-timing monitor on a lazily fed stream", "Object roots; bound 16 KiB plus 64 bytes per byte of the largest field."),
 "C31": ("metamorphic monitor: one block decoded in up to twelve surroundings", "Path expansion off; blocks with blank lines are not put into list items."),
 "C32": ("error-text agreement and line-number monitor over all entry points", "Errors without a line number are only compared between entry points."),
 "C33": ("black-box monitor of standard error against estimates of the actual texts", "Wording is not judged, only numbers, names and direction."),
 "C34": ("preloaded observer of opens, tree changes, sockets and processes, with the whole tree compared before and after", "System calls made past the C library are seen only by their effect on the tree."),
 "C35": ("fault injection on the real binary with a monitor of exit status and message", "Wording is not judged: the message must contain the path or stream, the system's or the library's reason."),
 "C25": ("native run of the bindings over a stand-in JavaScript host, every result and thrown error compared with the library", "No JavaScript engine: values of the host are Rust data (jshost/). If the bindings use host features the stand-in lacks, only their success paths without options are run. Names unique within an object."),
}
built = [l.strip() for l in open(os.path.join(root, "tools/claimed.txt")) if l.strip()]
checks, na = [], []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    t, n = NOTES[i]
    if i in built:
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + t,
            "level": "fault_enumeration" if i == "C21" else "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "the monitor is not built yet"})
m = {"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: everything observed is public. DESIGN.md describes each monitor."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
