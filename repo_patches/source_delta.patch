From deba2c364dd2afad56e6a48641fdfba08f03d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 1/8] fix: clear_region() stops at the right edge of the region

A region that began and ended within one frame buffer word was cleared
through to the end of that word. A right edge at a multiple of 32 shifted
by 32, which panics in debug builds and clears 32 extra columns in release
builds.
---
 src/blit.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index ecb6496..615d04b 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -27,11 +27,16 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
     // Blit it
     for y in clip.min.y..clip.max.y {
         let base = y * WORDS_PER_LINE;
-        fb[base + dest_low_word] |= 0xffffffff << (32 - px_in_dest_low_word);
+        let mut low_mask = 0xffffffff << (32 - px_in_dest_low_word);
+        if dest_low_word == dest_high_word {
+            // Region begins and ends within one word, so stop at its right edge
+            low_mask &= 0xffffffff >> (32 - px_in_dest_high_word);
+        }
+        fb[base + dest_low_word] |= low_mask;
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
         }
-        if dest_low_word < dest_high_word {
+        if dest_low_word < dest_high_word && px_in_dest_high_word > 0 {
             fb[base + dest_high_word] |= 0xffffffff >> (32 - px_in_dest_high_word);
         }
     }
-- 
2.43.0


From 152a8e47fdc08d1e13d354b4e790c8b4841d1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 2/8] fix: paint one replacement character for a trailing
 unknown character

When the last character of a string had no glyph, the string slice did not
advance, so the replacement character got painted again for each remaining
iteration of the loop (twice for a lone 2-byte character, etc).
---
 src/blit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 615d04b..438f3a0 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -75,8 +75,7 @@ pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle,
                 if let Some((i, _)) = cluster.char_indices().nth(1) {
                     cluster = &cluster[i..];
                 } else {
-                    //cluster = &cluster[1..];
-                    //break; // That was the last char, so stop now
+                    break; // That was the last char, so stop now
                 }
             }
         }
-- 
2.43.0


From 72335f90698c8b293ab45270ed0ef1d252d61d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 3/8] fix: clip glyphs that are wider than the clip rect

Word wrapping can't make a glyph fit in a clip rect that is narrower than
the glyph. Such glyphs got blitted past the right edge of the clip rect,
including into the next line of the frame buffer and, for the last line,
past its end (panic).
---
 src/blit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 438f3a0..7a50700 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -149,7 +149,8 @@ fn xor_char(
         x0 = c.pt.x + 1;
     }
     // Calculate word alignment for destination buffer
-    let x1 = x0 + gh.w;
+    let w_max = core::cmp::min(gh.w, clip.max.x - x0);
+    let x1 = x0 + w_max;
     let dest_low_word = x0 >> 5;
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
@@ -187,10 +188,13 @@ fn xor_char(
             pattern_h >>= 32 - px_in_high_word;
             pattern |= pattern_h;
         }
+        if w_max < gh.w {
+            pattern &= (1 << w_max) - 1; // Clip right side of glyph
+        }
         // XOR glyph pixels onto destination buffer
         let base = (y0 + y) * WORDS_PER_LINE;
         fb[base + dest_low_word] ^= pattern << (32 - px_in_dest_low_word);
-        if px_in_dest_low_word < gh.w {
+        if px_in_dest_low_word < w_max {
             fb[base + dest_high_word] ^= pattern >> px_in_dest_low_word;
         }
     }
-- 
2.43.0


From ae9cb27652f0ef1dfcbeccae311e330cb36c461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 4/8] fix: saturate cursor arithmetic instead of overflowing

Cursor fields are public and can hold any usize. Values near the maximum
overflowed, which panics in debug builds and, in release builds, wraps
around to paint at the wrong end of the screen (possibly outside the clip
rect).
---
 src/blit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 7a50700..4530fe2 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -88,7 +88,7 @@ fn newline(clip: ClipRect, c: &mut Cursor) {
     if c.line_height < fonts::small::MAX_HEIGHT as usize {
         c.line_height = fonts::small::MAX_HEIGHT as usize;
     }
-    c.pt.y += c.line_height + 1;
+    c.pt.y = c.pt.y.saturating_add(c.line_height.saturating_add(1));
     c.line_height = 0;
 }
 
@@ -142,9 +142,9 @@ fn xor_char(
         c.pt.x = clip.min.x;
     }
     // Add 1px pad to left
-    let mut x0 = c.pt.x + 1;
+    let mut x0 = c.pt.x.saturating_add(1);
     // Adjust for word wrapping
-    if x0 + gh.w + 2 >= clip.max.x {
+    if x0.saturating_add(gh.w + 2) >= clip.max.x {
         newline(clip, c);
         x0 = c.pt.x + 1;
     }
@@ -155,7 +155,7 @@ fn xor_char(
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
     // Blit it
-    let y0 = c.pt.y + gh.y_offset;
+    let y0 = c.pt.y.saturating_add(gh.y_offset);
     if y0 > clip.max.y {
         return Ok(0); // Entire glyph is outside clip rect, so clip it
     }
-- 
2.43.0


From f73f8dab4990609f8c034b7b23709802bda4b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 5/8] fix: don't drop text after a glyph that is clipped at the
 bottom

When the clip rect cut through a line of text, the first glyph lying
entirely below the bottom edge (comma, period, etc) stopped the rest of the
string from being painted, even where the following glyphs were partly
visible. Clip just that glyph and carry on.
---
 src/blit.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 4530fe2..2fd0c1a 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -156,10 +156,9 @@ fn xor_char(
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
     // Blit it
     let y0 = c.pt.y.saturating_add(gh.y_offset);
-    if y0 > clip.max.y {
-        return Ok(0); // Entire glyph is outside clip rect, so clip it
-    }
-    let y_max = if (y0 + gh.h) <= clip.max.y {
+    let y_max = if y0 > clip.max.y {
+        0 // Entire glyph is outside clip rect, so clip it
+    } else if (y0 + gh.h) <= clip.max.y {
         gh.h
     } else {
         clip.max.y - y0 // Clip bottom of glyph
-- 
2.43.0


From acd8cba9fda2f574cfda1ccf9dc175e3bc227250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 6/8] fix: codegen reads whole glyph cells when border and
 gutter differ

The bounds of a glyph grid cell were only right for sprite sheets with a
border as wide as the gutter. Wider borders cut off the right and bottom of
each glyph, and narrower borders read pixels of the gutter.
---
 codegen/lib/blitpattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index f2e5e47..afc084d 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -42,9 +42,9 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	gridSize := font.Size + font.Gutter
 	border := font.Border
 	pxMatrix := Matrix{}
-	for y := border + (row * gridSize); y < (row+1)*gridSize; y++ {
+	for y := border + (row * gridSize); y < border+(row*gridSize)+font.Size; y++ {
 		var row MatrixRow
-		for x := border + (col * gridSize); x < (col+1)*gridSize; x++ {
+		for x := border + (col * gridSize); x < border+(col*gridSize)+font.Size; x++ {
 			r, _, _, _ := img.At(x, y).RGBA()
 			//fmt.Println(r, g, b, a)
 			if r == 0 {
-- 
2.43.0


From ec3865b40b8cf66041f4c778bf8e2fd6c40dc28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 7/8] fix: codegen fails when a font file can't be written

The error was ignored, so codegen reported writing the file and exited with
status 0.
---
 codegen/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen/main.go b/codegen/main.go
index ba26deb..772f7c9 100644
--- a/codegen/main.go
+++ b/codegen/main.go
@@ -40,7 +40,9 @@ func codegen() {
 		// Generate rust source code and write it to a file
 		code := RenderFontFileTemplate(f, gs, f.M3Seed)
 		fmt.Println("Writing to", f.RustOut)
-		ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		if err := ioutil.WriteFile(f.RustOut, []byte(code), 0644); err != nil {
+			panic(err)
+		}
 	}
 }
 
-- 
2.43.0


From b562d374cb3e530c0fd0cbc244d5543b532350d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 8/8] fix: keep glyph data in static memory

DATA was a const array, so unoptimised builds copied all five tables (1.5 MB)
to the stack for every word of every glyph. Painting one character overflowed
the stack of a thread with 1 MiB (the main thread's size on Windows).
Only the declaration changes in the template; fonts regenerated.
---
 codegen/lib/templates.go | 2 +-
 src/fonts/bold.rs        | 2 +-
 src/fonts/emoji.rs       | 2 +-
 src/fonts/hanzi.rs       | 2 +-
 src/fonts/regular.rs     | 2 +-
 src/fonts/small.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/codegen/lib/templates.go b/codegen/lib/templates.go
index b64fc7e..a84b66a 100644
--- a/codegen/lib/templates.go
+++ b/codegen/lib/templates.go
@@ -148,7 +148,7 @@ const OFFSET_{{$k.Name}}: [usize; {{len $dex}}] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; {{.GS.DataLen}}] = [
+pub static DATA: [u32; {{.GS.DataLen}}] = [
 {{.GS.Code}}];
 
 #[cfg(test)]
diff --git a/src/fonts/bold.rs b/src/fonts/bold.rs
index c2f175c..a34e680 100644
--- a/src/fonts/bold.rs
+++ b/src/fonts/bold.rs
@@ -723,7 +723,7 @@ const OFFSET_SPECIALS: [usize; 1] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 1501] = [
+pub static DATA: [u32; 1501] = [
     // [0]: 20 " "
     0x0004020e, 0x00000000,
     // [2]: 21 "!"
diff --git a/src/fonts/emoji.rs b/src/fonts/emoji.rs
index 4821ec0..9166cfe 100644
--- a/src/fonts/emoji.rs
+++ b/src/fonts/emoji.rs
@@ -8188,7 +8188,7 @@ const OFFSET_SYMBOLS_AND_PICTOGRAPHS_EXTENDED_A: [usize; 57] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 91228] = [
+pub static DATA: [u32; 91228] = [
     // [0]: 1f004 "🀄"
     0x00171f01, 0x92492492, 0x49200000, 0x0492c924, 0x92492006, 0x00249649, 0x24924909, 0x30016db6,
     0x49e4b6ca, 0xc1870b25, 0x964b2492, 0x420c304b, 0x6cb24b6d, 0x92006902, 0x49649249, 0x24900300,
diff --git a/src/fonts/hanzi.rs b/src/fonts/hanzi.rs
index 9a609cc..1903858 100644
--- a/src/fonts/hanzi.rs
+++ b/src/fonts/hanzi.rs
@@ -17021,7 +17021,7 @@ const OFFSET_CJK_UNIFIED_IDEOGRAPHS_EXTENSION_E: [usize; 108] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 276441] = [
+pub static DATA: [u32; 276441] = [
     // [0]: 3447 "㑇"
     0x00202000, 0x00000000, 0x00000000, 0x00000000, 0x00018300, 0x00018380, 0x0001c380, 0x00ffc180,
     0x00ffe1c0, 0x00e070c0, 0x007070e0, 0x007038e0, 0x00381cf0, 0x00180ef8, 0x01fffcfc, 0x01fff8fc,
diff --git a/src/fonts/regular.rs b/src/fonts/regular.rs
index 64cd7f3..4d5314b 100644
--- a/src/fonts/regular.rs
+++ b/src/fonts/regular.rs
@@ -723,7 +723,7 @@ const OFFSET_SPECIALS: [usize; 1] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 1412] = [
+pub static DATA: [u32; 1412] = [
     // [0]: 20 " "
     0x0004020e, 0x00000000,
     // [2]: 21 "!"
diff --git a/src/fonts/small.rs b/src/fonts/small.rs
index 5def4e2..cbad896 100644
--- a/src/fonts/small.rs
+++ b/src/fonts/small.rs
@@ -723,7 +723,7 @@ const OFFSET_SPECIALS: [usize; 1] = [
 ///  h: Height of pattern in pixels
 ///  yOffset: Vertical offset (pixels downward from top of line) to position
 ///     glyph pattern properly relative to text baseline
-pub const DATA: [u32; 1071] = [
+pub static DATA: [u32; 1071] = [
     // [0]: 20 " "
     0x0004020b, 0x00000000,
     // [2]: 21 "!"
-- 
2.43.0

