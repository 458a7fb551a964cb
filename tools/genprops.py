#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

FB = ("frame buffer", "1-bit pixels, 11 words of 32 pixels per line, least significant bit leftmost; 336 of 352 columns visible", "src/framebuffer.rs")
CUR = ("text cursor", "position of the next glyph and height of the tallest glyph on the active line", "src/cursor.rs")
CLIP = ("clip rectangle", "half-open pixel ranges min..max, public fields, so any four numbers", "src/cliprect.rs")
FONT = ("font tables", "per Unicode block: sorted cluster hashes, data offsets; packed glyph rows", "src/fonts/*.rs")

p("C01", "No call panics, reads out of bounds, overflows or hangs",
  "Painting any string, clearing any region, and running any demo scene always returns normally: for every text, style, clip rectangle, cursor position and line height (including inverted, empty, off-screen and near-maximum values) and every frame buffer content there is no panic, no arithmetic or shift overflow, no out-of-bounds access and no endless loop.",
  ["inputs"], "every call of every public function with every argument value the types admit",
  "The tests call painting with about ten fixed strings in full-screen or padded clip rectangles and clearing only with the full screen; narrow clips, edges at multiples of 32, huge cursors and unlisted characters are never passed.",
  ["src/blit.rs", "src/cliprect.rs", "src/cursor.rs", "src/fonts.rs", "src/m3hash.rs", "src/demo.rs"],
  [("argument validation and word indexing", "src/blit.rs clear_region, paint_str, xor_char"), ("glyph header and row lookup", "src/fonts.rs GlyphData"), ("forbid(unsafe_code)", "src/lib.rs")],
  [FB, CUR, CLIP], ["return of every public call", "panic hook", "process exit status"])
p("C02", "Painting never changes a pixel outside the clip rectangle",
  "Painting text changes only pixels that lie inside the clip rectangle (minimum inclusive, maximum exclusive), for every text, cursor, style and previous frame buffer content; in particular it never touches the padding bits beyond the right edge of the visible screen. When the rectangle reaches beyond the screen or has no width or no height, painting changes no pixel at all.",
  ["inputs"], "all texts, styles, cursors, clip rectangles (also narrower or shorter than a glyph) and frame buffer contents",
  "Tests compare hashes of whole frames for a few texts in two clip rectangles that are wider and taller than any glyph.",
  ["src/blit.rs", "src/cliprect.rs"], [("wrap, right-edge mask and row range", "src/blit.rs xor_char")], [FB, CUR, CLIP], ["frame buffer before and after each call"])
p("C03", "Clearing a region sets exactly the pixels of that region",
  "Clearing a rectangle that lies on the screen turns every pixel inside it to the clear state (bit set) and leaves every other pixel of the frame buffer as it was, whatever the word alignment of its edges. Clearing a rectangle that is empty, inverted or reaches beyond the screen changes nothing.",
  ["inputs"], "all rectangles (all pairs of left/right edges, all pairs of top/bottom edges, and invalid ones) and all frame buffer contents",
  "The only tested region is the full screen, whose edges are one fixed alignment.",
  ["src/blit.rs"], [("word masks for the left and right edge", "src/blit.rs clear_region")], [FB, CLIP], ["frame buffer before and after each call"])
p("C04", "Every listed cluster paints its source bitmap at the cursor, pixel for pixel",
  "Each grapheme cluster listed for a font (including aliases) paints exactly the foreground pixels of its cell in that font's sprite sheet, with blank margins trimmed as configured (proportional, fixed space or untrimmed CJK), in every style. The trimmed glyph's left column is painted one pixel right of the cursor, each row at its height in the cell below the cursor's y, at every screen position and word alignment, and nothing else is painted.",
  ["inputs"], "all clusters of the five fonts (about 12,300 plus aliases) x three styles x every screen column and every row",
  "Tests hash frames that contain about 100 of the more than 12,000 glyphs at a handful of alignments; font tables are otherwise only checked for sorted hashes.",
  ["src/blit.rs", "src/fonts.rs", "src/fonts/bold.rs", "src/fonts/emoji.rs", "src/fonts/hanzi.rs", "src/fonts/regular.rs", "src/fonts/small.rs"],
  [("packed row extraction and shifting", "src/blit.rs xor_char"), ("hash search, offsets and data", "src/fonts/*.rs"), ("header unpacking", "src/fonts.rs")], [FB, FONT], ["frame buffer difference of one painted cluster"])
p("C05", "Text is read as the longest listed clusters, emoji before Latin before CJK",
  "At each position of a text, if any emoji cluster is a prefix of the remaining text then the longest such cluster is consumed and its glyph painted; otherwise the same is done with the Latin font of the requested style, and otherwise with the CJK font. Characters that merely resemble or partly match a listed cluster are never consumed or replaced together with it, and every newline character starts a new line.",
  ["inputs"], "all Unicode strings: every scalar value alone, every listed cluster with every kind of continuation, truncation and neighbour, at the end of the text or inside it",
  "Tests use a few sentences with about 20 emoji, of which one is a multi-codepoint cluster; there are about 2,400 multi-codepoint clusters and no test of truncated or extended ones.",
  ["src/blit.rs", "src/m3hash.rs", "src/fonts/emoji.rs", "src/fonts/hanzi.rs", "src/fonts/regular.rs"],
  [("font precedence", "src/blit.rs paint_str"), ("per-block greedy matching by descending length", "src/fonts/*.rs get_blit_pattern_offset"), ("cluster hash and bytes consumed", "src/m3hash.rs grapheme_cluster")], [FONT], ["frame buffer and cursor after painting"])
p("C06", "Each unlisted character paints exactly one replacement glyph",
  "A character at which no listed cluster begins is painted as exactly one replacement character (U+FFFD) glyph of the requested style and consumes exactly that one character, wherever it stands in the text, including at its end. So painting a text equals painting the text with each such character written as U+FFFD.",
  ["inputs"], "all unlisted scalar values (over a million) in every position: alone, first, last, repeated, between listed clusters, in every style",
  "No test paints a character that is missing from the fonts.",
  ["src/blit.rs", "src/fonts/regular.rs", "src/fonts/small.rs", "src/fonts/bold.rs"],
  [("fallback branch", "src/blit.rs paint_str"), ("Unicode block prefilter", "src/fonts/*.rs get_blit_pattern_offset")], [FB, FONT], ["frame buffer and cursor after painting"])
p("C07", "Painting is an XOR: independent of the background and undone by repeating",
  "Which pixels a paint call inverts, and where the cursor ends up, depends only on text, style, clip rectangle and starting cursor, never on what the frame buffer contained before. Painting the same text again from the same starting cursor restores the previous frame buffer exactly.",
  ["inputs", "histories"], "all texts, styles, clips and cursors over arbitrary frame buffer contents, including glyphs painted over other glyphs",
  "All tests start from a freshly cleared or freshly initialised frame buffer and paint each place once.",
  ["src/blit.rs"], [("XOR of shifted row patterns", "src/blit.rs xor_char")], [FB, CUR], ["frame buffer difference of the same call over different backgrounds"])
p("C08", "Cursor advance, wrapping and line height follow the documented layout",
  "Each painted glyph takes one pixel of space on its left and two on its right and moves the cursor right by its width plus three; a glyph whose padded box would reach or cross the right edge of the clip rectangle is preceded by a newline, and a cursor left of the clip rectangle first moves to its left edge. A newline moves the cursor to the left edge of the clip rectangle and down by one pixel more than the line height, which is the largest height among the fonts used since the line began (24 small, 30 regular and bold, 32 emoji and CJK, or the height passed in with the cursor) and at least 24; afterwards the line height is zero. The cursor never moves up, however large its coordinates or line height are.",
  ["inputs", "histories"], "all sequences of glyphs and newlines, starting cursors, incoming line heights and clip rectangles that lie on the screen",
  "Tests cover wrapping only through one frame hash with two clip widths, and never look at the cursor after painting.",
  ["src/blit.rs", "src/cursor.rs", "src/glyphstyle.rs"], [("wrap test and cursor advance", "src/blit.rs xor_char"), ("newline", "src/blit.rs newline")], [CUR, CLIP], ["cursor and frame buffer after each call"])
p("C09", "Painting a text in pieces equals painting it at once",
  "Splitting a text at cluster boundaries and painting the pieces one after another with the same clip rectangle, style and cursor gives the same frame buffer and the same final cursor as painting the whole text in one call, for every number of pieces and also where text is clipped at the top or bottom.",
  ["inputs", "histories"], "all texts, all sets of split points at cluster boundaries, all on-screen clip rectangles and cursors",
  "One ASCII sentence is tested, split at every character, in the full screen.",
  ["src/blit.rs"], [("cursor carries all layout state between calls", "src/blit.rs paint_str, newline")], [CUR], ["frame buffer and cursor after each call"])
p("C10", "Clipping shows exactly the part of the text inside the rectangle",
  "For clip rectangles with the same left and right edges, the pixels painted are those painted when the rectangle spans the full screen height, restricted to the rows of the rectangle, and the final cursor is the same: glyphs cut by the top or bottom edge show their remaining rows, and a glyph that is cut off entirely does not affect the others. A glyph too wide for the rectangle shows exactly its columns left of the right edge.",
  ["inputs"], "all texts, styles, cursors (also above, below and left of the rectangle) and all on-screen rectangles",
  "No test has a glyph crossing the top or right edge; one frame hash crosses a bottom edge.",
  ["src/blit.rs"], [("row skipping and truncation, right-edge mask", "src/blit.rs xor_char")], [FB, CLIP], ["frame buffers of clipped and unclipped calls"])
p("C11", "Glyphs and text lines never overlap",
  "Every pixel painted for a glyph lies in the box between the cursor before and after it horizontally (leaving the first column and the last two blank) and within the line height vertically, so that in text painted from a fresh cursor no two glyphs share a pixel, neighbouring glyphs are separated by at least three blank columns, and every pixel of a line lies above every pixel of the next line. The height estimate for a style is at least the height of every Latin glyph of that style and equals the height its lines take.",
  ["inputs"], "all texts mixing all fonts and styles, all glyph pairs side by side and above each other, in rectangles wide enough for their glyphs",
  "Glyph extents are never compared with cursor advance or line height; only three height constants are asserted.",
  ["src/blit.rs", "src/glyphstyle.rs", "src/fonts/bold.rs", "src/fonts/emoji.rs", "src/fonts/hanzi.rs", "src/fonts/regular.rs", "src/fonts/small.rs"],
  [("cursor advance by width + 3", "src/blit.rs xor_char"), ("maximum height per font", "src/fonts/*.rs"), ("line height tracking", "src/blit.rs newline")], [CUR], ["frame buffer difference and cursor per cluster"])
p("C12", "Results depend only on the arguments, not on history or other threads",
  "The frame buffer and cursor after a call are a function of its arguments alone: the same call gives the same result however many and whichever calls came before, when the caller reuses the memory of earlier strings or buffers, and while any number of other threads paint into their own buffers at the same time. There are no data races between such threads.",
  ["histories", "schedules"], "all call histories (long runs, reused string and buffer memory, alternating styles and fonts) and all interleavings of threads with separate buffers",
  "Each test makes a few calls on its own buffer and checks one result; none runs painting concurrently or compares results after different histories.",
  ["src/blit.rs", "src/fonts.rs", "src/m3hash.rs", "src/demo.rs"], [("no mutable statics in the library", "src/*.rs")], [FB, CUR], ["results of repeated and concurrent calls", "ThreadSanitizer reports"])
p("C13", "Same pixels in debug, optimised and 32-bit WebAssembly builds",
  "For every sequence of calls whose arguments and resulting cursors fit in 32 bits, the frame buffer and cursor after each call are identical whether the library is built with or without optimisation and overflow checks, for 64-bit hosts or for 32-bit targets such as WebAssembly, whatever their byte order, and follow the same documented behaviour on each.",
  ["configurations", "inputs"], "build profiles (checked, optimised, size-optimised wasm32) x all inputs",
  "The tests only run in the 64-bit debug profile; the wasm build is compiled and never executed.",
  ["src/blit.rs", "src/m3hash.rs", "src/fonts.rs", "src/framebuffer.rs"], [("fixed-width pixel and hash arithmetic", "src/blit.rs, src/m3hash.rs")], [FB, CUR], ["results of the same workload in each build"])
p("C14", "Painting work grows at most linearly with the text",
  "The work done by a paint call is bounded by a constant times the length of its text plus a constant, for every kind of text (ASCII, emoji sequences, CJK, unlisted characters, newlines), whether the text is visible, clipped away or given with an unusable clip rectangle, and does not grow with the distance of cursor or clip rectangle from the screen.",
  ["inputs"], "all texts and text lengths, cursors and clip rectangles",
  "Tests paint at most about 500 characters and measure nothing.",
  ["src/blit.rs", "src/m3hash.rs"], [("bounded look-ahead in cluster hashing", "src/m3hash.rs grapheme_cluster"), ("one pass over the text", "src/blit.rs paint_str")], [], ["executed instruction counts for growing inputs"])
p("C15", "Demo scenes fully determine the visible screen, also through the wasm exports",
  "Each demo scene leaves the same visible screen whatever the frame buffer held before and however often and in whichever order scenes are run. After the WebAssembly demo's initialisation, once or repeatedly, the exported pointer gives aligned, valid access to a whole frame buffer showing the same screen as the poem scene, with no undefined behaviour in its unsafe code.",
  ["inputs", "histories"], "all previous frame buffer contents, all orders and repetitions of scenes and of the exported calls",
  "Scenes are only tested from a fresh frame buffer in one order; wasm_demo has no tests.",
  ["src/demo.rs", "wasm_demo/src/lib.rs"], [("full-screen clear before each scene", "src/demo.rs"), ("static frame buffer behind exported functions", "wasm_demo/src/lib.rs")], [("FB", "the demo's frame buffer", "wasm_demo/src/lib.rs")], ["frame buffer after each scene", "wasm memory at the exported pointer", "Miri reports"])
p("C16", "The web page shows the frame buffer exactly",
  "After the page has loaded the WebAssembly module and initialised it, the pixel at column x and row y of the 336 by 536 canvas is transparent if and only if the frame buffer bit for (x, y) is set, and opaque dark otherwise, for every frame buffer content and every position of the frame buffer in the first 2 GiB of WebAssembly memory.",
  ["inputs", "configurations"], "all frame buffer contents and addresses, with streaming and non-streaming module loading",
  "The JavaScript is neither built nor tested.",
  ["wasm_demo/main.js", "wasm_demo/wasm.js", "wasm_demo/src/lib.rs"], [("bit order and line stride decoding", "wasm_demo/main.js repaint"), ("buffer view", "wasm_demo/wasm.js frameBuf")], [], ["image data put on the canvas"])
p("C17", "Generated fonts reproduce their sprite sheets for any font definition",
  "For every valid font configuration (glyph size up to 32, any border, gutter and column count, either index format, any aliases and any hash seed without collisions), the source files the font generator writes carry the configured legal notice, compile, pass their own tests, and make each listed cluster and alias paint exactly the foreground pixels of its sprite sheet cell, trimmed as configured.",
  ["inputs", "configurations"], "all sprite sheets, grid geometries, cluster indices, alias lists, trimming modes and hash seeds",
  "The generator has no tests and is only compiled; its output for other inputs than the shipped fonts is never looked at.",
  ["codegen/main.go", "codegen/lib/blitpattern.go", "codegen/lib/matrix.go", "codegen/lib/glyphset.go", "codegen/lib/blockindex.go", "codegen/lib/charspec.go", "codegen/lib/config.go", "codegen/lib/fontspec.go", "codegen/lib/murmur3.go", "codegen/lib/templates.go", "codegen/lib/ublock.go"],
  [("cell extraction, trimming and packing", "codegen/lib/blitpattern.go, codegen/lib/matrix.go"), ("cluster index, aliases and hash tables", "codegen/lib/glyphset.go, codegen/lib/blockindex.go, codegen/lib/murmur3.go"), ("rust templates", "codegen/lib/templates.go")], [], ["painting of clusters by a library built with the generated fonts"])
p("C18", "The shipped fonts are what the generator makes of the shipped sources",
  "Running the font generator on the repository's own configuration and font sources yields font files with which every text paints exactly as with the shipped ones, and running it again yields byte-identical files.",
  ["inputs", "histories"], "all clusters of all shipped fonts, repeated generator runs",
  "The generator is never run by the build or the tests, so shipped files and sources can drift apart unnoticed.",
  ["codegen/main.go", "codegen/config.json", "codegen/src_data", "src/fonts"], [("deterministic ordering of blocks and hashes", "codegen/lib/glyphset.go, codegen/lib/blockindex.go")], [], ["generated files", "painting by libraries built with shipped and regenerated fonts"])
p("C19", "The font generator writes only on confirmation and only its output files",
  "Without the confirmation switch as its only argument the font generator writes, creates and removes nothing and prints how to use it; with it, it writes exactly the font files named in the configuration and nothing else. If an input (configuration, sprite sheet, index, alias list) is missing or not in its format, if the configuration or a sprite sheet is truncated, if an alias names a cluster that the index does not list, or if an output file cannot be written, it fails with a non-zero exit status rather than reporting success.",
  ["inputs", "fault_sequences"], "all argument lists, and every missing, truncated or malformed input file",
  "The generator is never run by the tests.",
  ["codegen/main.go", "codegen/lib/config.go", "codegen/lib/charspec.go"], [("argument check", "codegen/main.go main"), ("panic on bad input", "codegen/main.go, codegen/lib/*.go")], [], ["file system before and after each run", "exit status and output"])
p("C20", "Constructors and conversions are total and consistent",
  "For any four numbers the clip rectangle constructor gives the rectangle spanned by the two corner points with each minimum not above its maximum, whatever corners were passed; a cursor made from a rectangle starts at its top left corner with line height zero, and the full and padded rectangles lie on the screen and can be cleared and painted. Every number converts to a style (0 small, 1 regular, 2 bold, anything else regular) and every style converts back to the number it came from; points, cursors and rectangles compare equal exactly when all their coordinates are equal, and points are ordered by x and then y. A new frame buffer holds the same vertical stripes every time.",
  ["inputs"], "all numbers",
  "Tests try one or two hand-picked values for each function.",
  ["src/cliprect.rs", "src/cursor.rs", "src/pt.rs", "src/glyphstyle.rs", "src/framebuffer.rs"], [("min/max fixup", "src/cliprect.rs ClipRect::new"), ("conversions", "src/glyphstyle.rs")], [CLIP], ["returned values"])
p("C21", "Equivalent spellings and irrelevant styles paint identically",
  "A Latin letter paints the same whether it is written precomposed (NFC) or as base letter plus combining mark (NFD), and an emoji paints the same in each of its listed spellings, in every style, at every place in a text. Emoji and CJK glyphs look the same in all three styles.",
  ["inputs"], "all listed letters with a canonical decomposition, all emoji alias pairs, all emoji and CJK clusters, in all styles and surroundings",
  "One letter in both forms and one emoji in three styles appear in tests.",
  ["src/fonts/emoji.rs", "src/fonts/bold.rs", "src/fonts/regular.rs", "src/fonts/small.rs", "src/fonts/hanzi.rs", "src/blit.rs"], [("alias entries with the offset of the canonical cluster", "src/fonts/*.rs"), ("font selection by style", "src/blit.rs paint_str")], [FONT], ["frame buffer and cursor after painting either spelling"])
p("C22", "Painting uses no heap and a bounded stack",
  "Painting text, clearing a region and running a demo scene allocate no memory and use at most 256 KiB of stack, in optimised and in unoptimised builds. The stack used does not grow with the length or kind of the text, with the number of lines, wraps or unlisted characters in it, nor with the number of calls.",
  ["inputs", "histories"], "all texts and text lengths, cursors, styles, clip rectangles and call histories",
  "Tests paint at most about 500 characters, on stacks of 2 MiB, and measure nothing.",
  ["src/blit.rs", "src/fonts.rs", "src/fonts/hanzi.rs", "src/fonts/emoji.rs", "src/demo.rs", "codegen/lib/templates.go"], [("one loop over the text", "src/blit.rs paint_str"), ("font tables in static memory", "src/fonts/*.rs DATA, codegen/lib/templates.go")], [], ["lowest stack address written and number of allocations during each call"])
p("C23", "Painting is the same everywhere on the screen",
  "Moving the clip rectangle and the cursor together by any distance that keeps the rectangle on the screen moves the painted pixels and the final cursor by exactly that distance and changes nothing else, whatever the text, style, cursor and rectangle: no column, row, word boundary or edge of the screen is treated differently from another. Clearing a region moves with the region in the same way.",
  ["inputs"], "all texts, styles, cursors, rectangles on the screen and moves that keep them there",
  "Tests paint in two rectangles with fixed cursors, so neither wrapping nor clipping nor word alignment is seen at more than a few places.",
  ["src/blit.rs", "src/cliprect.rs"], [("word index and shift from the column", "src/blit.rs xor_char, clear_region"), ("wrap and clip relative to the rectangle", "src/blit.rs xor_char, newline")], [FB, CUR, CLIP], ["frame buffer and cursor after the call and after the moved call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for e in P:
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
print(len(P))
