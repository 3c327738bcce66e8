#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "generated values / operation histories, choice-sequence PBT with shrinking, against "
CHECKS = {
 "C01": (G + "a model of style composition; exhaustive pairs of styles",
         "Exhaustive over all pairs of the 867 styles for apply/diff; random restyle expressions up to nesting 6. Trusts the 20-line model of composition."),
 "C02": (G + "a scope model that tags each character with its style",
         "Random formatter programs (nesting, padding, user Display types, user sinks). Trusts the model walk of the same program."),
 "C03": (G + "an ANSI terminal model",
         "Exhaustive over style transitions, random documents and escape-laden text. Trusts the SGR interpreter in model.rs."),
 "C04": (G + "a metamorphic relation: same styled characters, different chunking and scoping",
         "Random documents and random re-chunkings, for every format and both write traits."),
 "C05": (G + "a strict HTML reader (round trip)",
         "Exhaustive over characters and style pairs, random documents and metacharacter-heavy text. Trusts the strict reader in model.rs."),
 "C06": (G + "text equality after decoding, for all formats and for raw io bytes",
         "Random documents, byte strings and write splits."),
 "C07": (G + "a reference model of attributed strings (operation histories)",
         "Random histories of appends, clones, replays and conversions on several strings."),
 "C12": (G + "a byte-exact model of delivery under scripted short writes and interruptions",
         "Random scripts of short writes and interrupts. Trusts the scripted stream."),
 "C13": (G + "a fault model: scripted hard errors and zero writes at generated positions",
         "Random fault positions over random programs; the first error must be the one reported."),
 "C14": (G + "a fault model: failing sinks and failing Display at generated positions",
         "Random fault positions in fmt sinks, user sinks and user Display types."),
 "C15": (G + "a differential relation between all rendering entry points, plus generated programs comparing writeln with write",
         "Random values through every entry point; generated programs for every form of format string."),
 "C16": (G + "a counting global allocator",
         "Random documents and write sequences; heap allocation is counted per thread around building and rendering."),
 "C08": ("generated Rust programs (format string x argument), compiled and run, differential against std::fmt, with shrinking",
         "Exhaustive sweep of every supported spec against every trait on probe arguments, plus random multi-placeholder programs. Trusts std's own formatting macros."),
 "C09": ("generated Rust programs comparing attributes with programmatic restyles, with shrinking",
         "Exhaustive over single attributes x surrounding styles, random attribute lists x options."),
 "C10": ("generated Rust programs with an evaluation log, differential against std::format!, with shrinking",
         "Random argument lists and expression forms over all placeholder kinds. Trusts std's macros as the oracle of assignment."),
 "C11": ("grammar-based generation and mutation of format strings and argument lists, compiled, verdict compared with a reference parser and with rustc's std macros",
         "Exhaustive short placeholder bodies and attribute edits, random calls; listed known findings are probed separately."),
 "C17": ("all 64 feature combinations built with cargo, running one program of generated writes and macro calls; differential between combinations",
         "Exhaustive over combinations, also those of each component crate (compile only); random writes and calls. The program's sections are compared wherever the API exists; no-std combinations are also checked to need neither std nor an allocator."),
 "C18": ("generated scopes of shadowing declarations (names harvested from the macros' own sources), compiled and run, metamorphic against the same call in a plain scope; std as oracle of capture hygiene",
         "Random scopes, with and without the prelude, renamed dependency, four editions."),
}
LEVEL = {}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                            "technique": t, "level": LEVEL.get(p, "exploration"), "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
