#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run from /verif)."""
import json
T = {
 "C01": ("random, structured, mutated and deeply nested inputs; exhaustive short ones", "every public decoding, reading and printing call ends normally, in a worker process with 2 MiB stacks"),
 "C02": ("exhaustive inputs up to 3 octets, identifier x length form x size grids, elements nested in others", "an independent framing decoder"),
 "C03": ("contents of every primitive type, exhaustive where small", "independent content rules, with contents no rule speaks about left out"),
 "C04": ("random element trees with faults at any offset, concatenation and wrapping", "an independent event stream and metamorphic relations"),
 "C05": ("all integers of 1-3 octets, random and boundary ones of up to 64 KiB", "two's complement arithmetic"),
 "C06": ("all bit strings of up to 2 octets, random long ones, all unused-bit counts", "bit by bit indexing"),
 "C07": ("all contents of up to 3 octets, arcs around the group boundaries, malformed contents", "an independent X.690 encoder and decoder"),
 "C08": ("every day from 1970 to 9999, every second of a day, all values of each field, mutated texts", "day counting by the Gregorian leap rule"),
 "C09": ("certificate models with all optional parts", "encode with an independent encoder, decode, compare every field"),
 "C10": ("certificates at odd places in larger buffers", "address arithmetic on the returned slices, reassembly of the input"),
 "C11": ("certificates with structural edits, cuts, extensions and byte mutations", "an independent certificate decoder (accept, reject or no claim)"),
 "C12": ("names with any grouping, order, repetition, foreign attributes and corruptions", "the name model and an independent name decoder"),
 "C13": ("extension lists of all kinds, corrupted at any offset", "the list model and an independent decoder"),
 "C14": ("all key usage bit strings of up to 2 octets, longer random ones, corruptions", "the RFC 5280 bit positions"),
 "C15": ("all forms of basic constraints, path lengths around the limits, corruptions", "independent decoder"),
 "C16": ("alternative names of all kinds in any order, corruptions", "independent decoder and encoder round trip"),
 "C17": ("purpose lists in any order, foreign purposes, corruptions", "independent decoder and encoder round trip"),
 "C18": ("contents of key identifiers and roles, corruptions", "independent decoder"),
 "C19": ("pairs of times x instants at and around them, readings of the clock", "comparison of the encoded times, the system clock"),
 "C20": ("certificate models and mutated certificates, several printers", "an independent report renderer and a monitor of the printer protocol"),
 "C21": ("files, names, flags and argument lists given to the real program", "an independent renderer of both modes, exit status"),
 "C22": ("declared-length bombs, wide, deep and ordinary inputs", "a counting allocator and the count of executed edges, bounded linearly in the input"),
 "C23": ("histories of decodings, alignments, surroundings, threads, separate processes", "equality of all results"),
 "C24": ("all kinds of decoded elements", "independent text rules"),
 "C25": ("inputs with a single fault of each kind and any offending value", "names and values that the message has to hold"),
 "C26": ("elements of all types, decoded and built, and pairs of equal, nearly equal and same-octets elements", "the type and value drawn by the generator"),
 "C27": ("sequences of printer calls and whole certificates given to the console printer in a child process", "a model of the output: texts and two spaces per open level"),
}
checks = []
for i, (dom, oracle) in T.items():
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing: " + dom,
        "level": "exploration",
        "level_note": f"Searched, not proved: {dom}, decided by {oracle}. Small domains named in the evidence are enumerated completely. Trusts the harness's own encoders and reference decoders, the Rust toolchain, and that release code with overflow checks behaves like the shipped build.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public interface. check.sh builds from /repo's working tree into /verif/target/<hash of all sources>.",
}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
