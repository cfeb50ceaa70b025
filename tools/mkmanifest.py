#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = "runtime monitoring: generated call histories, output re-read by an independent PDF parser and compared with the recorded calls"
TYPED = "runtime monitoring: typed writers driven with random calls, emitted entries parsed back and compared with a table transcribed from the standard"
T = {
 "C01": (FILE, "Every byte offset, header, trailer and marker of each finished file is compared with the recorded history. Trusts the harness's parser."),
 "C02": (FILE, "Both cross-reference forms are decoded and walked (free list, coverage, sizes, field widths). Trusts the harness's parser."),
 "C03": (FILE, "The same history is finished as table, stream and filtered stream; the three files are parsed and compared object by object."),
 "C04": ("runtime monitoring: histories with and without repeated numbers; the panic is observed", "Every finishing method over random and minimal repetitions, also across merged and renumbered chunks."),
 "C05": ("runtime monitoring: written numbers are parsed back (bit sweep over f32, all i32 magnitudes)", "Quick samples the f32 bit space with a stride; thorough sweeps it more densely. Finite floats only."),
 "C06": ("runtime monitoring: strings and names are read back by an independent tokenizer, all short byte sequences plus random ones", "Exhaustive for all one- and two-byte contents in every syntactic context, random beyond."),
 "C07": ("runtime monitoring: text strings and dates decoded by an independent implementation", "All scalar values one by one, random strings, all date shapes."),
 "C08": (FILE, "Random trees through every container API; exhaustive small shapes."),
 "C09": ("runtime monitoring: differential runs (pretty/compact, capacities, repeated, other processes)", "Same program under all settings; outputs compared by parsed meaning or byte for byte."),
 "C10": (FILE, "Stream bytes and length compared for hostile data and dictionaries."),
 "C11": (FILE, "Merge histories of chunks against the concatenation the calls describe."),
 "C12": (FILE, "Random and hostile mappings; every reference in the parsed output compared with the mapping of the source's."),
 "C13": (FILE, "Source and renumbered chunk are tokenized; everything but reference numbers must agree, on writer-made and raw look-alike contents."),
 "C14": ("runtime monitoring: content operations recorded and compared with the parsed operation stream", "All operations, random sequences with nested operand writers."),
 "C15": ("runtime monitoring: limits compared with maxima measured on the parsed output", "Covers primitives, containers, content, maps, merges, renumbering."),
 "C16": ("runtime monitoring: an independent CMap interpreter reads the result", "All code counts around the section size, all scalar values."),
 "C17": ("runtime monitoring: encoded calculator text is parsed and executed, compared with the given program", "Random nested programs; execution on an independent PostScript calculator."),
 "C18": (TYPED, "All document-structure writers and methods; the table is transcribed by hand from ISO 32000."),
 "C19": (TYPED, "All interactive writers and methods; the table is transcribed by hand from ISO 32000."),
 "C20": (TYPED, "All font writers and methods; the table is transcribed by hand from ISO 32000."),
 "C21": (TYPED, "All color, pattern, function, XObject, graphics-state writers; table transcribed by hand."),
 "C22": (TYPED, "All tagged-PDF writers and methods; table transcribed by hand."),
 "C23": ("runtime monitoring: every enum value and every flag set is written and compared with the standard's value", "Exhaustive over enum variants and over flag pairs and singles; random larger sets."),
 "C24": ("runtime monitoring: role conversions observed for all roles, versions and parameters", "Exhaustive over roles; compared with the standard's role lists."),
 "C25": ("runtime monitoring: boundary and random arguments of each documented restriction; the panic (or its absence) is observed", "Exhaustive where the argument is a byte or smaller; boundaries and random values otherwise."),
 "C26": ("runtime monitoring with overflow checks, AddressSanitizer and Miri over random and extreme call sequences", "Panics, aborts, hangs, stack overflows and sanitizer reports are violations. ASan and Miri see smaller samples."),
 "C27": ("runtime monitoring under ThreadSanitizer (thorough: also Miri with many schedules), differential against sequential runs", "Interleaved, nested, moved and concurrent builders; results compared with those of the same builder alone."),
 "C28": ("runtime monitoring, differential between build profiles (debug, release; thorough: unoptimized and size-optimized) and platforms (Miri interpreting 32-bit and big-endian targets)", "Outputs of the same programs compared; the interpreted platforms see a small sample of short programs."),
 "C29": ("runtime monitoring with an instrumented allocator and the thread's CPU clock: cost per unit written at sizes 1, 4, 16, 64, 256 (thorough: 1024); memory kept after repeated programs", "83 families of programs; growth by a constant factor is no violation."),
}
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "No hooks: everything is observed through the public interface.", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
                 "technique": t, "level": "exploration", "level_note": n} for p, (t, n) in T.items()],
     "not_applicable": []}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
