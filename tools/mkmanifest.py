#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("byte-level and grammar fuzzing of the parser with a totality oracle", "Random bytes, mutated real files and hostile grammar output never panic, hang, run away in memory, or give both or neither of map and error; hangs and memory are judged by a watchdog and a replay alone."),
 "C02": ("fault injection at generated read positions, metamorphic chunking", "Every generated fault position and chunking is run against the real reader path."),
 "C03": ("round-trip property test of generated headers", "Compares every declared field with the parsed one."),
 "C04": ("metamorphic property test over representations", "Full public state of the map is compared with that of the canonical rendering."),
 "C05": ("property test against a reference model of hit-object lines", "The model is written from the format's documentation and the declared lines."),
 "C06": ("property test against a reference model of combos", "All objects' combo fields are compared."),
 "C07": ("property test against a linear-scan timing model", "Points, ratios, velocities and BPM range at generated query times."),
 "C08": ("property test with a geometric validity oracle in float64", "Positions at 49 fractions lie on the exact curve within the calibrated flattening tolerance; ill-conditioned arcs are only judged by length."),
 "C09": ("property test against formula and path model", "Durations, bounces and ends; tolerance is float32 rounding."),
 "C10": ("property test against a reference tick generator", "All score points of each slider are compared."),
 "C11": ("differential property test against an independent stacking implementation", "Stack heights of three variants; ties at the 3 px threshold within rounding are set aside."),
 "C12": ("property test against a reference model, query-order metamorphic", "All mod masks, order of queries generated."),
 "C13": ("stateful property test (operation sequences against a model)", "After every operation the difficulty equals the model and a fresh one."),
 "C14": ("round-trip and model-based property test", "All 30 mod bits, arbitrary strings."),
 "C15": ("property test against a reference rule table", "Multiplier, compatibility and activity of generated masks."),
 "C16": ("differential property test against an independent star-rating implementation", "The model is float64 and written from osu!'s algorithm; object positions are taken from the library (judged by C08-C12)."),
 "C17": ("differential property test between entry points and prefixes", "Every prefix of every map is rated."),
 "C18": ("fuzzing of parse-and-rate with a totality and sanity oracle", "Hostile and degenerate maps."),
 "C19": ("property test against a reference count", "Single, stepwise, all mods."),
 "C20": ("metamorphic property test (symmetries)", "Relations between two ratings of transformed maps."),
 "C21": ("differential property test against an independent pp formula", "All components."),
 "C22": ("monotonicity property test over paired plays", "Single-step and multi-step degradations."),
 "C23": ("stateful property test (call histories against fresh calculators)", "Also explicit/default argument equivalence."),
 "C24": ("history and concurrency property test under the race detector", "The schedule is the Go scheduler's: races are detected by happens-before analysis, not by enumerating interleavings."),
 "C25": ("property test against exact curve definitions", "float64 de Casteljau, Hermite form, circumcircle, big-integer binomials."),
 "C26": ("property test of section arithmetic and recomputation from peaks", "Peak counts, prefixes, ratings recomputed from peaks."),
 "C27": ("metamorphic property test: junk insertion", "Full public state is compared with that of the clean file."),
 "C28": ("property test against float64 definitions", "All helpers on every case; tolerance is float32 rounding."),
 "C30": ("differential and metamorphic property test of composite curves", "Positions and angles against a float64 walk of the curve's own pieces; cut against uncut curves."),
 "C31": ("monotonicity property test over all prefixes", "Every pair of neighbouring prefixes of every map."),
 "C32": ("metamorphic property test over irrelevant changes", "Two versions of each map are rated and compared."),
 "C33": ("differential property test of the whole chain against an independent model", "The model starts from the declared numbers and uses no object of the library; values which flattening or rounding can change get the range the model reaches under sampled perturbations."),
 "C29": ("property test against a reference model of events", "Background and break list."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "checks": [],
 "not_applicable": [],
 "notes": "Every check rebuilds the harness against /repo's working tree; no hooks are needed. run.py ID --replay FILE replays a reported case.",
}
for p in props:
    i = p["id"]
    tech, note = T[i]
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech,
        "level": "exploration",
        "level_note": note + " Exploration only: nothing is claimed about inputs not generated; trusted: the oracle models, rapid, the Go toolchain.",
    })
assert {p["id"] for p in props} == set(T)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
