#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
T = {
 "C01": ("round-trip over generated packets", "Every v4 packet type and flag/QoS/code combination is generated; strings and lists mostly small with a tail to 65535 bytes. Assumes the adapter between model and crate types is faithful (it is checked field by field against the wire by C03/C05)."),
 "C02": ("round-trip over generated packets", "Every v5 packet type and every property subset is reachable; pairs of properties are covered densely. Assumes the adapter is faithful (C04/C06 check it against the wire)."),
 "C03": ("differential: crate encoder against an independent reference encoder", "Byte equality with a second encoder written from the MQTT 3.1.1 text. Trusts that reference encoder, which is cross-checked against its own decoder."),
 "C04": ("differential: crate encoder against an independent reference decoder", "The reference decoder is strict about lengths, identifiers, flags and minimal integers. Trusts that decoder."),
 "C05": ("differential: reference encoder against the crate decoder", "Every form MQTT 3.1.1 allows, including ones the crate never emits."),
 "C06": ("differential: reference encoder with shuffled properties and all short forms against the crate decoder", "Property orders, multiplicities and every elided form are generated."),
 "C07": ("fuzzing for panics and hangs: mutated and random bytes and strings into every public entry point", "Run both with and without overflow checks and debug assertions. A hang is a case that does not end within 30 s of CPU time on its own. Absence of panics is not proved."),
 "C08": ("model-based: framing oracle over generated stream prefixes and size limits", "The oracle recomputes need-more, too-large and frame extent from the bytes; small prefixes are enumerated completely."),
 "C09": ("stateful histories: frames in generated chunkings against frame-by-frame decoding", "Up to about ten frames per history, any chunking, either version."),
 "C10": ("fuzzing against an independent reference decoder (v4)", "Mutated frames judged strictly or leniently by the reference decoder; forms MQTT leaves to the implementation are recorded as such and not judged."),
 "C11": ("fuzzing against an independent reference decoder (v5)", "As C10, with property-level edits."),
 "C12": ("metamorphic: encoding into generated prior buffers and sequences of writes", "Same bytes for any prior content, capacity and order; returned count and public len() checked."),
 "C13": ("fault injection: one or more unencodable fields, buffer compared before and after", "Every string/binary field, list and integer which can exceed its wire limit is driven over it."),
 "C14": ("generated sizes around every length boundary, small sizes enumerated", "Every growing field at and around 127/128, 16383/16384, 2097151/2097152 and the maximum."),
 "C15": ("differential: matches() against a reference matcher; small alphabets enumerated", "All pairs of short strings over a small alphabet, plus random longer ones."),
 "C16": ("differential: validity functions against a reference grammar; small strings enumerated", "All short strings over a small alphabet, plus random longer ones with any UTF-8."),
 "C17": ("metamorphic laws between filters and topics", "Laws relating matches(), valid_filter() and has_wildcards() over enumerated and random strings."),
 "C18": ("enumeration of code bytes at every code position, round-trip and rejection", "All 256 bytes at each code position of each packet."),
 "C19": ("fuzzing lying length fields under a counting allocator with a memory bound as oracle", "Peak and total allocation of each decode are measured by the harness's global allocator."),
 "C20": ("round-trip from the wire: accepted bytes re-encode to an equal packet and re-decode", "Over mutated frames as in C10/C11."),
 "C21": ("metamorphic: repeated and interleaved calls, buffers overwritten afterwards, file descriptors 1 and 2 captured", "The output check runs in one thread with stdout and stderr redirected to memory files. Time is shifted at clock_gettime; a clock read any other way (rdtsc) is not."),
 "C22": ("differential: constructors and setters against the reference model", "Every public constructor with generated arguments."),
 "C23": ("differential between the v4 and v5 modules on shared forms", "Connects of either level and packets common to both versions."),
 "C24": ("differential between the stream reader and the per-packet readers and extractors", "Over valid and mutated frames."),
 "C25": ("single-fault injection: the error names the injected fault", "One known fault per frame; the reported error must be one of those which describe it."),
 "C26": ("metamorphic: the same shape of input at n and 32n items, allocation counted and thread CPU time measured", "Growth is judged at one factor, with a margin of 4 (bytes allocated, deterministic) and 8 plus 50 ms (CPU time, five rounds); n log n passes, n squared does not."),
 "C27": ("metamorphic: pairs of packets one edit apart, == against field-by-field comparison; clones against originals", "Fields are read through the public structs; the two packets of a pair are built the same way."),
 "C28": ("differential: extractors against the reference section reader, valid, edited, random and tiny sections with any tail", "The extractors are called directly, on slices of larger buffers; tolerated forms are not judged."),
}
checks = []
for p in props:
    t, note = T[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t,
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "cd harness && cargo build --release --offline --locked && cargo build --profile production --offline --locked",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: the harness uses only the public API of mqttbytes. Genuine defects found and repaired are listed in KNOWN_FINDINGS.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
