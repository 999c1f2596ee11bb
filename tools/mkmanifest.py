#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Trusts libprotobuf 3.21.12 and the compiler; sampling, so a case no generator reaches is not judged."
C = {
 "C01": ("differential property-based testing against libprotobuf with shrinking", "Random message values of all schema types are serialized and decoded by libprotobuf; every scalar type, field number class and capacity of the schemas is swept. " + TRUST),
 "C02": ("differential property-based testing with an encoding-variation generator", "Random conforming encodings (order, packing, chunks, duplicates, padded varints, splits) are decoded and compared with libprotobuf. " + TRUST),
 "C03": ("metamorphic property-based testing: insertion of unknown fields; schema version pairs", "Unknown fields are inserted at random places of random encodings; results compared with the encoding without them. " + TRUST),
 "C04": ("round-trip and history-independence property-based testing", "Random values are written through different histories and buffers and have to give the same bytes and come back equal."),
 "C05": ("property-based testing with enumeration of the free space", "For random values every amount of free space from 0 to size+slack is tried on guarded buffers under address sanitizer."),
 "C06": ("structure-aware fuzzing under address and undefined behaviour sanitizers with a usability oracle", "Random and mutated byte strings; sanitizers and call counting judge safety, re-use afterwards judges usability. libFuzzer with coverage feedback in the thorough tier."),
 "C07": ("differential fuzzing against an independent reference decoder; truncation at every byte", "Each random encoding is cut at every byte and corrupted; the error code is compared with an independent reference decoder written from the protobuf specification."),
 "C08": ("property-based testing around the capacity boundary", "Fill levels 0..max+n of all bounded fields by decoding and by API."),
 "C09": ("stateful model-based testing of accessors", "Random operation histories against a libprotobuf message plus presence model."),
 "C10": ("stateful model-based testing of oneofs", "Random operation histories, including failing decodes, against a one-active-member model."),
 "C11": ("stateful model-based testing of copies", "Random pairs of states; equality and independence judged through all getters and by following operations."),
 "C12": ("stateful model-based testing of containers", "Random operation sequences on containers of all element types against a bounded std::vector model, under sanitizers."),
 "C13": ("stateful model-based testing of buffers", "Random operation sequences on the supplied buffers against byte queue models, guard bytes and sanitizers."),
 "C14": ("fault injection: enumeration of every refused buffer call", "For each random value every single position of a transient or permanent refusal is enumerated."),
 "C15": ("round-trip and reference-codec property-based testing, exhaustive sweeps over short encodings", "Reference codecs written from the specification; boundary-biased 32/64 bit values, exhaustive over 32 bit values in the thorough tier."),
 "C16": ("random schema generation, compilation, and differential testing of the result", "Random schemas of the documented features are generated, compiled under several standards and the classes compared with the descriptor and with libprotobuf."),
 "C17": ("metamorphic property-based testing of the plugin over random requests", "Random requests are run under different hash seeds, directories, environments and companions; random unsupported schemas must be refused."),
 "C18": ("property-based testing of text output against a reference renderer, all array sizes", "Random values are rendered by a reference and compared; every array size up to the full text is tried under address sanitizer."),
 "C19": ("property-based testing with allocation interposition", "malloc, free, new and delete are interposed and counted during all operations of random histories."),
 "C20": ("random interleavings, re-entrant callbacks and threads under thread sanitizer", "Results of each object compared with running alone; races reported by the thread sanitizer for the schedules which occurred."),
}
NA = json.load(open(os.path.join(V, "tools/na.json"))) if os.path.exists(os.path.join(V, "tools/na.json")) else {}
checks = []
for k, (tech, note) in sorted(C.items()):
    if k in NA: continue
    checks.append(dict(property=k, quick_cmd="python3 run_check.py " + k, thorough_cmd="VERIF_TIER=thorough python3 run_check.py " + k, evidence_file="evidence/%s.json" % k,
                       technique=tech, level="fault_enumeration" if k == "C14" else "exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 setup.py_", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes="No hooks in /repo: the checks use public interfaces only. Every check builds from /repo's working tree into /verif/build (content addressed, ignored by git).")
m["setup_cmd"] = "true"
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
