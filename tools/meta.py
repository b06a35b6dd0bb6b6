#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe, level=level))

FL, SL = "handlers/flash/", "handlers/sloggy/"
HF = [FL + "handler.go", FL + "composer.go", SL + "handler.go", SL + "composer.go"]
OBS = ["the bytes each Write call on the handler's writer receives", "the result of Handle, Enabled, WithAttrs, WithGroup"]

prop("C01", "Every record is exactly one line holding one valid JSON object",
     "For every record that the flash or sloggy handler accepts, whatever its message, attributes, groups, configuration and chain of derived handlers, the output is one line that is one syntactically valid JSON object in valid UTF-8, followed by a line ending and nothing else. Values whose own formatting methods fail or panic, and numbers JSON has no form for, are no exception.",
     ["inputs", "configurations"], "all records, attribute values and keys, derivation chains, ReplaceAttr functions, flash extras",
     "The suites log a few dozen fixed records; malformed output appears only for particular bytes, values and combinations of empty groups and derived handlers.",
     HF, [("record composition", FL + "handler.go Handle"), ("escaping", FL + "composer.go addEscaped"), ("record composition", SL + "handler.go Handle")],
     "runtime monitor on the writer with a strict JSON parser, over generated records",
     "Held for the generated records (counts in the evidence), no statement beyond; trusts encoding/json's validity check.",
     [("prefix and suffix", "preformatted attributes and closing braces", FL + "handler.go Handler")], OBS)
prop("C02", "Text of any bytes reads back unchanged and cannot forge fields",
     "Any string used as a value, key, group name, message, error text or text of a value's own formatting method reads back from the JSON line as exactly that string, where each run of bytes that is not valid UTF-8 may read back as replacement characters. No string changes any other member of the line or adds one. The names and formats configured through flash extras are treated in the same way.",
     ["inputs"], "all byte strings in every position where text can occur",
     "Tests use a handful of strings; escaping errors hide in particular bytes, truncated sequences and positions (a group name is written by other code than a value).",
     HF, [("escaping", FL + "composer.go addEscaped"), ("quoting", SL + "composer.go addString"), ("group opening", FL + "handler.go WithGroup")],
     "runtime monitor with a round-trip oracle over exhaustive short byte strings, all runes and generated text",
     "Exhaustive over single bytes, pairs, class triples and all runes in value and key position; sampled for the rest.", (), OBS)
prop("C03", "A line says exactly what the logging calls said",
     "The members of a line are the built-in fields followed by the attributes of the derived handler and of the record, in the order given, nested in the groups that were open when they were added, each with the value it was given in the JSON form of its kind. Attributes that are empty and groups without content do not appear, groups with an empty name are inlined, and values that resolve lazily are logged as what they resolve to. Integers keep every digit and floating point numbers their exact value.",
     ["inputs", "programs"], "all attribute trees, value kinds and chains of deriving calls",
     "The verification suites compare fixed maps after decoding into float64 and without order, for a few shapes of nesting.",
     HF, [("attribute formatting", FL + "composer.go addAttribute"), ("attribute formatting", SL + "composer.go addAttribute"), ("elision of empty groups", FL + "handler.go Handle")],
     "runtime monitor comparing each line with an executable reference model of log/slog semantics",
     "Held on the generated derivation chains and records; the reference model is trusted, it was cross-checked against slog.JSONHandler.", (), OBS)
prop("C04", "Derived handlers are independent of each other",
     "What a handler logs is determined by its own chain of deriving calls and the record. Deriving further handlers from it or from any of its ancestors, or logging through them, in any order and number, never changes it.",
     ["histories", "programs"], "all trees of derived handlers and all orders of deriving and logging",
     "The suites derive one or two handlers and use them at once; sharing shows only for particular sizes, siblings and orders.",
     HF, [("derivation", FL + "handler.go WithAttrs, WithGroup"), ("derivation", SL + "handler.go WithAttrs, WithGroup")],
     "offline history checker: each record against the model of its handler's own path",
     "Held on the generated families of handlers (counts in the evidence).",
     [("prefix", "preformatted bytes shared by descendants", FL + "handler.go Handler")], OBS)
prop("C05", "Concurrent use loses, mixes and corrupts nothing",
     "When many goroutines derive handlers from a common one and log through them at once, each record is passed to the writer in exactly one Write call holding its whole line, no two such calls overlap, records of one goroutine appear in its order, and every line is the one that the same call would produce alone. There is no data race in doing so.",
     ["schedules"], "all interleavings of goroutines which derive and log, with threshold changes",
     "No test of the repository logs from two goroutines; interleavings and pooled buffers cannot be settled by single-threaded examples.",
     HF + [FL + "pools.go"], [("write lock", FL + "handler.go Handle"), ("buffer pools", FL + "pools.go"), ("write lock", SL + "handler.go Handle")],
     "race detector plus exactly-once, order and buffer-stability monitors on the writer",
     "Held on the schedules that occurred (distinct output orders are counted); the race detector sees only accesses that were executed.",
     [("buffer pool", "buffers reused between records", FL + "pools.go")], OBS)
prop("C06", "A record is logged exactly when its level reaches the threshold",
     "A handler of this repository reports a level as enabled exactly when it is not below the configured threshold as it is at that moment, and a logger on top writes exactly the enabled records. Without a configured threshold it is the informational level; handlers derived from one handler follow the same threshold, also when it is changed later.",
     ["inputs", "histories", "configurations"], "all levels, thresholds, kinds of leveler, and histories of threshold changes",
     "Tests check a dozen levels around the defaults with constant thresholds.",
     [FL + "handler.go", SL + "handler.go"], [("gate", FL + "handler.go Enabled"), ("gate", SL + "handler.go Enabled")],
     "runtime monitor with a threshold model over histories of level changes", "Held on the generated histories.", (), OBS)
prop("C07", "Built-in fields are present, correctly named and correct",
     "Each line starts with the time of the record unless that is zero, the level name, the message, and, if source is requested and known, function, file and line of the logging call, each under its default or configured name. Time is in the configured format with full precision of the default; a level without a configured name has the name log/slog gives it.",
     ["inputs", "configurations"], "all times, levels, call sites and flash extras",
     "Tests check four levels, one time format and one call site.",
     HF + [FL + "extras.go", FL + "source.go"], [("built-in fields", FL + "handler.go Handle"), ("defaults", FL + "extras.go fixExtras"), ("source", FL + "source.go loadSource"), ("built-in fields", SL + "handler.go Handle")],
     "runtime monitor comparing with a model of the configured fields", "Held on generated configurations and a fixed set of call sites.", (), OBS)
prop("C08", "Attribute replacement is asked about each attribute and obeyed",
     "A configured replacement function is called once for every non-empty attribute that is not a group, built-in fields included, with its value resolved and with exactly the names of the groups that enclose it (none for built-in fields). What it returns is what is logged: renamed, replaced by a value of any kind, or removed when it returns the empty attribute, along with groups that become empty.",
     ["inputs", "programs"], "all replacement functions of groups and key, all attribute trees and derivation chains",
     "Tests use a few functions that match one key at the top level.",
     HF, [("replacement", FL + "composer.go addAttribute"), ("replacement", SL + "composer.go addAttribute")],
     "runtime monitor on the calls of an instrumented replacement function and on the line, against a model",
     "Held on generated functions and records. Whether the function is asked about empty attributes is left open.", (), OBS + ["the calls of the replacement function"])
prop("C09", "Failures are reported and stay confined to their record",
     "When the writer returns an error the logging call on the handler reports that error. A value whose formatting fails or panics costs neither the line nor any other member. After any such failure, a panicking writer or replacement function included, every later record through the same or related handlers is complete and correct, and no call blocks.",
     ["fault_sequences"], "all sequences of records with failing writers, values and replacement functions",
     "No test injects a write error or a panic into the handlers.",
     HF, [("write", FL + "handler.go Handle"), ("value methods", FL + "composer.go addAny"), ("write", SL + "handler.go Handle"), ("value methods", SL + "composer.go addAny")],
     "fault injection at writer, value methods and replacement function, with a model-based monitor of all records",
     "Held on the generated fault sequences; short writes leave the rest of that line unspecified.", (), OBS)
prop("C10", "Handlers leave their inputs alone and forget each record",
     "Creating and using handlers never modifies the options, extras, attributes and records handed over, and changing the options or extras afterwards does not affect existing handlers. The line of a record is the same, byte for byte, whatever was logged before it by the same or other handlers, failed calls included.",
     ["histories", "inputs"], "all histories of other records and all inputs handed over",
     "Tests look at one record in a fresh process; reused buffers and defaults written into the caller's data show only afterwards.",
     HF + [FL + "extras.go", FL + "pools.go"], [("option defaults", FL + "extras.go fixExtras"), ("buffer pools", FL + "pools.go"), ("option defaults", SL + "handler.go fixOptions")],
     "runtime monitor comparing inputs with deep copies, and probe records over random histories",
     "Held on the generated histories.", [("buffer pool", "buffers reused between records", FL + "pools.go")], OBS)

exec(open(os.path.join(here, "tools", "meta_more.py")).read()) if os.path.exists(os.path.join(here, "tools", "meta_more.py")) else None

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            anchors["observe_at"] = list(p["observe"])
        anchors["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
NA = globals().get("NA", [])
json.dump({"version": 1, "setup_cmd": "./setup.sh",
           "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
           "not_applicable": NA}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
