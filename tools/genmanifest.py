"""Writes MANIFEST.json.  python3 tools/genmanifest.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FUZZ = "Also calls made of literals found in the library's sources, and coverage-guided running (libFuzzer) judged by the same oracle."
COMMON = "Held on the executions produced, not proved. Trusts rustc/cargo, the reference model in harness/src/model.rs and, for bitmaps, the sprite sheets and index files in codegen/src_data."
T = {
    "C01": ("hostile-input workloads under overflow/bounds/debug assertions and AddressSanitizer, panic and progress monitors",
            "Extreme coordinates exhaustively in pairs, every scalar value, every listed cluster, random and long texts in three builds (checked, release, ASan). A call that uses 90 s of processor time alone counts as not returning."),
    "C02": ("frame-buffer diff monitor over hostile clip rectangles", "Every edge pair and every cluster with an edge through it, plus random calls; each pixel and padding bit is compared before and after."),
    "C03": ("frame-buffer diff monitor, all edge pairs enumerated", "Every left/right and every top/bottom edge pair is run over random contents; four-edge combinations are sampled."),
    "C04": ("runtime comparison with sprite sheet cells (reference-model oracle)", "Every cluster and alias in every style at every screen column; rows for one glyph of each width per font; random places; each glyph within random texts."),
    "C05": ("reference-model oracle (string-comparing longest match) over hostile texts", "Every scalar value, cluster x suffix, truncation, extension and part pairs, random texts. 480 recorded hash collisions (known_collisions.txt) are replayed as known findings; in random texts a mismatch is set aside only if it is exactly what comparing hashes would paint."),
    "C06": ("substitution oracle: text against the text with U+FFFD written", "Every unlisted scalar value in every style alone, between clusters, doubled and last, plus runs and random texts."),
    "C07": ("metamorphic runtime monitor: two backgrounds, paint twice", "Every cluster and random texts over patterned and random backgrounds."),
    "C08": ("layout model as online monitor of cursor and pixels", "Every wrap position per glyph width, all item sequences up to length five, random calls."),
    "C09": ("metamorphic runtime monitor: one call against its pieces", "Random and adversarial split points; clusters are found by the reference model."),
    "C10": ("metamorphic runtime monitor: clipped against masked full-height painting", "Every row cut per glyph width, every cluster in every narrow rectangle, random texts."),
    "C11": ("geometric invariant monitor on painted pixels", "Every cluster in every style, random pages painted glyph by glyph, and each glyph within random texts painted at once."),
    "C12": ("history and concurrency monitor with fresh-process oracle; ThreadSanitizer build", "Chains of near-identical calls with reused memory in 8 threads; calls repeated in fresh processes; the same under ThreadSanitizer with an instrumented standard library; and marathons of up to 2^26 cheap calls in one process (2^32 thorough) with full comparison of calls in between."),
    "C13": ("differential monitor over six builds (native checked/debug/optimised, three wasm32); a big-endian 32-bit target under Miri", "About a thousand calls with results from the model are interpreted by Miri for powerpc (also s390x and i686 in the thorough tier). The same workload in each other build, each judged by the model and compared by digests; wasm runs in node."),
    "C14": ("executed-instruction monitor (callgrind) with a linearity oracle", "Twenty-five kinds of text in ten settings, n = 250..16000 (64000 thorough, and 100000 or 500000 where nothing is painted) in an optimised and to 4000 in a debug build, and distances up to 2^62. Growth is judged by instruction counts, which do not depend on the machine's load."),
    "C15": ("scene history monitor, wasm exports driven in node, Miri for the unsafe code", "Scenes over random buffers and histories; random orders of the exported calls with memory overwritten between; native and Miri interpretation of the exports."),
    "C16": ("page executed in node with stand-in DOM/fetch/WebAssembly, canvas pixel monitor", "The page's own files run unmodified; every canvas pixel is compared with the frame buffer bits. The stand-ins model the parts of the browser API the page may use."),
    "C17": ("random font configurations through the real generator, painted and compared with sprite cells", "Each configuration is generated, compiled, self-tested, and every cluster painted; the oracle decodes the PNG itself (tools/pngread.py)."),
    "C18": ("regeneration in varied environments, byte comparison and paint digests", "Generator runs compared byte by byte; every scalar value, cluster and truncation painted with shipped and regenerated fonts."),
    "C19": ("fault injection with file-system snapshot and exit-status monitor", "Argument lists, settings and single faults in inputs and outputs; the generator runs unprivileged in a scratch folder that is compared before and after."),
    "C20": ("definition oracle over extreme and random arguments", "Random, extreme, equal, swapped and one-bit-different arguments."),
    "C21": ("metamorphic runtime monitor: equivalent spellings, styles", "Every listed decomposition and alias alone and in random surroundings; every emoji and CJK cluster in the three styles."),
    "C22": ("stack watermark and allocation counter around every call, debug and optimised builds", "Twenty-five kinds of text up to 300,000 characters (3,000,000 thorough) in ten settings, repeated calls and scenes. Stack use is read from a marked stack, so words written with exactly the mark's value would be missed; depths below 4 KiB are not distinguished."),
    "C23": ("metamorphic runtime monitor: a call against the same call moved across the screen", "Every cluster, rectangles moved to every column and every row, random texts and moves; regions of every width at every column and every height at every row. Both paintings are over a blank buffer, and the cursor is at most 2^20."),
}
GUIDED = ["C%02d" % i for i in list(range(1, 12)) + [20, 21, 23]]
checks = [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
           "technique": t, "level": "exploration", "level_note": n + " " + (FUZZ + " " if p in GUIDED else "") + COMMON} for p, (t, n) in T.items()]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API, the wasm exports, the page and the generator's command line. Each check builds what it needs from /repo into /verif/.build/<id> and removes it."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
