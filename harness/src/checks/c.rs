//! C09 - C13, C15 (scenes), C17/C18 (font dumps), C20, C21
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use blitstr::*;

// ---------------------------------------------------------------- C09
/// Paint at once into env.a, in pieces into env.b; both hold the same content on entry.
pub fn in_pieces(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str, cuts: &[usize], bg: &str) -> Res {
    env.st.evaluations += 1;
    let (mut c1, mut c2) = (*cur, *cur);
    paint_str(&mut env.a, *clip, &mut c1, st, s);
    let mut at = 0;
    for &e in cuts.iter().chain([s.len()].iter()) {
        paint_str(&mut env.b, *clip, &mut c2, st, &s[at..e]);
        at = e;
    }
    env.st.add("pieces painted", cuts.len() as u64 + 1);
    if same(&env.a, &env.b) && c1 == c2 {
        return Ok(());
    }
    let msg = format!(
        "at once and in pieces cut at bytes {:?} differ: {}; cursor {} at once, {} in pieces",
        &cuts[..cuts.len().min(30)],
        show_diff(&env.a, &env.b),
        show_cur(&c1),
        show_cur(&c2)
    );
    if collision_explains(env, clip, cur, st, s) {
        let a = &*env.a;
        env.b.copy_from_slice(a);
        return Ok(());
    }
    viol(msg, show_call(clip, cur, st, s, bg))
}
pub fn boundaries(m: &Model, st: GlyphStyle, s: &str) -> Vec<usize> {
    m.tokens(st, s, Match::Exact).iter().map(|t| t.range().0).filter(|a| *a > 0).collect()
}
fn pick_cuts(r: &mut Rng, b: &[usize]) -> Vec<usize> {
    match r.below(5) {
        0 | 1 => b.to_vec(),
        2 => {
            if b.is_empty() {
                vec![]
            } else {
                vec![*r.pick(b)]
            }
        }
        3 => {
            // with empty pieces
            let mut v = vec![0];
            for x in b {
                v.push(*x);
                if r.chance(1, 3) {
                    v.push(*x);
                }
            }
            v
        }
        _ => b.iter().copied().filter(|_| r.chance(1, 3)).collect(),
    }
}
fn c09_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(91, idx);
    fill_fb(&mut r, &mut env.a);
    let a = &*env.a;
    env.b.copy_from_slice(a);
    for i in 0..20 {
        let st = style(&mut r);
        let m = &env.ctx.model;
        let s = if r.chance(1, 3) { listed_text(&mut r, m, &env.ctx.pools, st, 60) } else { text(&mut r, m, &env.ctx.pools, 24) };
        let clip = on_screen(&mut r);
        let cur = near_cursor(&mut r, &clip);
        let b = boundaries(m, st, &s);
        let cuts = pick_cuts(&mut r, &b);
        if i == 0 {
            env.st.sample(|| format!("{} cut at {:?}", show_call(&clip, &cur, st, &s, "random"), cuts));
        }
        if !cuts.is_empty() {
            env.st.nontrivial(key(&clip, &cur, st, &s) ^ cuts.len() as u64);
        }
        in_pieces(env, &clip, &cur, st, &s, &cuts, "random")?;
    }
    Ok(())
}
fn c09_long(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(92, idx);
    let m = &env.ctx.model;
    let st = style(&mut r);
    let mut s = String::new();
    let want = [2_000, 20_000, 70_000][idx as usize % 3];
    while s.len() < want {
        if idx % 2 == 0 {
            piece(&mut r, m, &env.ctx.pools, &mut s);
        } else {
            s.push_str(&listed_text(&mut r, m, &env.ctx.pools, st, 50));
        }
    }
    wipe_all(env);
    let b = boundaries(m, st, &s);
    let cuts = pick_cuts(&mut r, &b);
    env.st.nontrivial(fnv(92, s.as_bytes()));
    for clip in [full(), rect(100, 200, 200, 300), rect(300, 0, 336, H)] {
        in_pieces(env, &clip, &Cursor::from_top_left_of(clip), st, &s, &cuts, "zeros")?;
    }
    Ok(())
}
fn c09_edges(env: &mut Env, idx: u64) -> Res {
    // short texts whose cuts fall next to wraps and clipped lines, every cut on its own
    let mut r = env.rng(93, idx);
    wipe_all(env);
    let m = &env.ctx.model;
    for _ in 0..6 {
        let st = style(&mut r);
        let s = text(&mut r, m, &env.ctx.pools, 8);
        let clip = on_screen(&mut r);
        let x = clip.max.x.saturating_sub(r.usz(60));
        let y = if r.chance(1, 2) { clip.max.y.saturating_sub(r.usz(70)) } else { clip.min.y.saturating_sub(r.usz(70)) };
        let cur = Cursor::new(x, y, *r.pick(&[0usize, 0, 30, 32]));
        let mut cuts = boundaries(m, st, &s);
        while cuts.len() > 24 {
            let i = r.usz(cuts.len());
            cuts.swap_remove(i);
        }
        for cut in cuts {
            env.st.nontrivial(key(&clip, &cur, st, &s) ^ cut as u64);
            in_pieces(env, &clip, &cur, st, &s, &[cut], "zeros")?;
        }
        wipe_all(env);
    }
    Ok(())
}
pub fn c09(_ctx: &Ctx) -> Check {
    Check {
        id: "C09",
        rule: "random texts with random subsets of their cluster boundaries as cuts (all, one, some, with empty pieces), every single cut next to wraps and clipped lines, texts up to 70,000 bytes; non-trivial: at least one cut; observed: frame buffer and cursor of both ways",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<9> },
            Workload { name: "edges", quick: 80_000, thorough: 4_800_000, exhaustive: false, run: c09_edges },
            Workload { name: "long", quick: 120, thorough: 1_800, exhaustive: false, run: c09_long },
            Workload { name: "random", quick: 180_000, thorough: 6_000_000, exhaustive: false, run: c09_random },
        ],
    }
}

// ---------------------------------------------------------------- C10
/// env.a (clipped) must equal env.b (same x range, full height) restricted to the rows of clip.
/// Both zero on entry and successful return.
pub fn masked(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str) -> Res {
    env.st.evaluations += 1;
    let tall = rect(clip.min.x, 0, clip.max.x, H);
    let (mut c1, mut c2) = (*cur, *cur);
    paint_str(&mut env.a, *clip, &mut c1, st, s);
    paint_str(&mut env.b, tall, &mut c2, st, s);
    let total: u32 = env.b.iter().map(|w| w.count_ones()).sum();
    env.b[..clip.min.y * WPL].fill(0);
    env.b[clip.max.y * WPL..].fill(0);
    let shown: u32 = env.b.iter().map(|w| w.count_ones()).sum();
    if !same(&env.a, &env.b) {
        return viol(
            format!("not the part inside the rectangle: {}", show_diff(&env.a, &env.b)),
            show_call(clip, cur, st, s, "zeros"),
        );
    }
    if c1 != c2 {
        return viol(
            format!("clipping changes the cursor: {} instead of {}", show_cur(&c1), show_cur(&c2)),
            show_call(clip, cur, st, s, "zeros"),
        );
    }
    if shown < total {
        env.st.add("texts with rows cut off", 1);
        env.st.nontrivial(key(clip, cur, st, s));
        if shown > 0 {
            env.st.add("texts partly visible", 1);
        }
    }
    wipe_all(env);
    Ok(())
}
fn c10_rows(env: &mut Env, idx: u64) -> Res {
    // one glyph of every width of every font, cut at each of its rows from above and below
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(101, idx);
    let (f, k) = if (idx as usize) < ctx.pools.widths.len() { ctx.pools.widths[idx as usize] } else { *r.pick(&ctx.pools.all) };
    let s = &m.fonts[f].entries[k].text;
    wipe_all(env);
    let st = style_for(m, f, idx as usize);
    let y = r.usz(H - 80) + 36;
    let x = r.usz(W - 40);
    for top in y - 2..y + 36 {
        masked(env, &rect(0, top, W, H), &Cursor::new(x, y, 0), st, s)?;
        masked(env, &rect(0, 0, W, top), &Cursor::new(x, y, 0), st, s)?;
        let t2 = (top + r.range(1, 20)).min(H);
        masked(env, &rect(0, top, W, t2), &Cursor::new(x, y, 0), st, s)?;
        // screen edge
        masked(env, &full(), &Cursor::new(x, H - (top - (y - 2)), 0), st, s)?;
    }
    Ok(())
}
fn c10_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(102, idx);
    wipe_all(env);
    for i in 0..20 {
        let st = style(&mut r);
        let s = text(&mut r, &env.ctx.model, &env.ctx.pools, 24);
        let clip = on_screen(&mut r);
        let mut cur = if r.chance(7, 8) { near_cursor(&mut r, &clip) } else { any_cursor(&mut r, &clip) };
        if r.chance(1, 3) {
            // many lines, so that the rectangle cuts somewhere in the middle
            cur.pt.y = clip.min.y.saturating_sub(r.usz(300));
        }
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "zeros"));
        }
        masked(env, &clip, &cur, st, &s)?;
    }
    Ok(())
}
/// Rectangles narrower than a glyph: exactly its columns left of the edge
fn c10_narrow(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(103, idx);
    wipe_all(env);
    for i in idx as usize * 8..(idx as usize * 8 + 8).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let e = &m.fonts[f].entries[k];
        let st = style_for(m, f, i);
        for w in 1..=e.glyph.w + 3 {
            let x0 = if r.chance(1, 4) { W - w } else { r.usz(W - w + 1) };
            let clip = rect(x0, 0, x0 + w, H);
            let cur = Cursor::new(match r.below(3) { 0 => x0, 1 => r.usz(W), _ => 0 }, r.usz(300), 0);
            vs_model(env, &clip, &cur, st, &e.text, "zeros", true)?;
            env.st.nontrivial(key(&clip, &cur, st, &e.text));
            wipe(env, cur.pt.y, cur.pt.y + 80);
        }
    }
    env.st.add("glyph x narrow width combinations", 1);
    Ok(())
}
/// A glyph that is cut off entirely does not affect the others
fn c10_hidden(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(104, idx);
    wipe_all(env);
    for _ in 0..10 {
        // rows of the low glyphs are below the edge, those of others are not
        let st = style(&mut r);
        let y = r.usz(H - 40);
        let clip = rect(0, 0, W, y + r.range(1, 31));
        let mut s = String::new();
        for _ in 0..r.range(2, 12) {
            let (f, k) = if r.chance(1, 2) { *r.pick(&ctx.pools.low_glyphs) } else { *r.pick(&ctx.pools.all) };
            s.push_str(&m.fonts[f].entries[k].text);
        }
        masked(env, &clip, &Cursor::new(r.usz(200), y, 0), st, &s)?;
    }
    Ok(())
}
pub fn c10(ctx: &Ctx) -> Check {
    let chunks = (ctx.pools.all.len() as u64 + 7) / 8;
    let w = ctx.pools.widths.len() as u64;
    Check {
        id: "C10",
        rule: "one glyph of each width of each font cut at every row from above and below; every cluster in every rectangle narrower than its box; mixes of low and tall glyphs at a bottom edge; random texts and rectangles; non-trivial: some pixels cut off; observed: clipped frame buffer and cursor against the full-height painting masked, narrow ones against the model",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<10> },
            Workload { name: "rows", quick: w + 600, thorough: w + 20_000, exhaustive: false, run: c10_rows },
            Workload { name: "narrow", quick: chunks, thorough: chunks, exhaustive: false, run: c10_narrow },
            Workload { name: "hidden", quick: 120_000, thorough: 3_600_000, exhaustive: false, run: c10_hidden },
            Workload { name: "random", quick: 150_000, thorough: 6_000_000, exhaustive: false, run: c10_random },
        ],
    }
}

// ---------------------------------------------------------------- C11
struct Bbox {
    x0: usize,
    x1: usize, // inclusive
    y0: usize,
    y1: usize,
}
fn bbox(fb: &FrBuf, y0: usize, y1: usize) -> Option<Bbox> {
    let mut b: Option<Bbox> = None;
    for y in y0..y1.min(H) {
        for w in 0..WPL {
            let v = fb[y * WPL + w];
            if v != 0 {
                let lo = w * 32 + v.trailing_zeros() as usize;
                let hi = w * 32 + 31 - v.leading_zeros() as usize;
                let q = b.get_or_insert(Bbox { x0: lo, x1: hi, y0: y, y1: y });
                q.x0 = q.x0.min(lo);
                q.x1 = q.x1.max(hi);
                q.y1 = y;
            }
        }
    }
    b
}
fn c11_boxes(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    wipe_all(env);
    let mut r = env.rng(111, idx);
    let chunk = idx as usize % ((ctx.pools.all.len() + 63) / 64);
    for i in chunk * 64..(chunk * 64 + 64).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let e = &m.fonts[f].entries[k];
        for st in STYLES {
            let (x, y) = (r.usz(W - 40), r.usz(H - 40));
            let before = Cursor::new(x, y, 0);
            let mut c = before;
            paint_str(&mut env.a, full(), &mut c, st, &e.text);
            env.st.evaluations += 1;
            let case = || show_call(&full(), &before, st, &e.text, "zeros");
            let bb = bbox(&env.a, 0, H);
            env.a.fill(0);
            if c.pt.y != y {
                return viol(format!("glyph wraps though there is room for 40 columns: cursor {}", show_cur(&c)), case());
            }
            if let Some(b) = bb {
                if b.x0 < x + 1 || b.x1 + 2 >= c.pt.x {
                    return viol(format!("columns {}..={} of the glyph are not inside its box {}..{} without margins", b.x0, b.x1, x, c.pt.x), case());
                }
                if b.y0 < y || b.y1 >= y + c.line_height {
                    return viol(format!("rows {}..={} of the glyph are not inside its line {}..{}", b.y0, b.y1, y, y + c.line_height), case());
                }
                env.st.nontrivial((i * 4 + st as usize) as u64);
                if m.latin_font(st) == f && m.lookup(st, &e.text, Match::Exact).map(|l| l.0) == Some(f) {
                    let h = glyph_to_height_hint(st);
                    if b.y1 - y >= h {
                        return viol(format!("glyph reaches row {} of its line but the height hint is {}", b.y1 - y, h), case());
                    }
                }
            } else if c.pt.x < x + 3 {
                return viol(format!("cursor does not leave room: {}", show_cur(&c)), case());
            }
            // the line such a glyph makes
            if m.latin_font(st) == f && m.lookup(st, &e.text, Match::Exact).map(|l| l.0) == Some(f) {
                let mut c2 = before;
                paint_str(&mut env.a, full(), &mut c2, st, &format!("{}\n", e.text));
                env.a.fill(0);
                if c2.pt.y - y != glyph_to_height_hint(st) + 1 {
                    return viol(format!("line takes {} rows but the height hint is {}", c2.pt.y - y - 1, glyph_to_height_hint(st)), case());
                }
            }
        }
    }
    Ok(())
}
fn c11_pages(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(112, idx);
    for _ in 0..4 {
        let w = r.range(36, W);
        let x0 = r.usz(W - w + 1);
        let y0 = r.usz(60);
        let clip = rect(x0, y0, x0 + w, H);
        let mut c = Cursor::from_top_left_of(clip);
        env.b.fill(0); // everything painted so far
        let mut log = String::new();
        let mut bottom_prev: Option<usize> = None; // lowest pixel row of earlier lines
        let mut bottom: Option<usize> = None; // of this line
        let mut right: Option<usize> = None; // rightmost pixel of this line
        let mut line_y = c.pt.y;
        let fixed = style(&mut r);
        let mode = r.below(3);
        let mut n = 0;
        while c.pt.y < H + 40 && n < 900 {
            n += 1;
            let st = if mode == 0 { fixed } else { style(&mut r) };
            let s: String = match r.below(12) {
                0 => "\n".into(),
                1 => " ".into(),
                2 => {
                    let (f, k) = *r.pick(&ctx.pools.low_glyphs);
                    m.fonts[f].entries[k].text.clone()
                }
                3 => "\u{10FFFF}".into(),
                _ => {
                    let (f, k) = if mode == 2 { *r.pick(&ctx.pools.all) } else { let lf = m.latin_font(st); (lf, *r.pick(&ctx.pools.by_font[lf])) };
                    m.fonts[f].entries[k].text.clone()
                }
            };
            let before = c;
            env.a.fill(0);
            paint_str(&mut env.a, clip, &mut c, st, &s);
            env.st.evaluations += 1;
            log.push_str(&format!(" {:?} {}", st, show_text(&s)));
            let case = |log: &str| format!("clip {}, zeros, one cursor from the top left corner:{}", show_rect(&clip), log);
            if c.pt.y != line_y {
                if c.pt.y < line_y {
                    return viol("cursor moves up", case(&log));
                }
                line_y = c.pt.y;
                bottom_prev = bottom.max(bottom_prev);
                bottom = None;
                right = None;
            }
            if s == "\n" {
                continue;
            }
            let bb = bbox(&env.a, 0, H);
            let left = if before.pt.y == c.pt.y { before.pt.x } else { clip.min.x };
            if let Some(b) = bb {
                if b.x0 < left + 1 || b.x1 + 2 >= c.pt.x {
                    return viol(format!("columns {}..={} are not inside the glyph's box {}..{}", b.x0, b.x1, left, c.pt.x), case(&log));
                }
                if let Some(rt) = right {
                    if b.x0 < rt + 4 {
                        return viol(format!("fewer than three blank columns between neighbours: {} .. {}", rt, b.x0), case(&log));
                    }
                }
                if let Some(bp) = bottom_prev {
                    if b.y0 <= bp {
                        return viol(format!("row {} of this line is not below row {} of an earlier line", b.y0, bp), case(&log));
                    }
                }
                if b.y0 < c.pt.y || b.y1 >= c.pt.y + c.line_height {
                    return viol(format!("rows {}..={} are not inside the line {}..{}", b.y0, b.y1, c.pt.y, c.pt.y + c.line_height), case(&log));
                }
                right = Some(b.x1);
                bottom = Some(b.y1.max(bottom.unwrap_or(0)));
                for i in 0..FRAME_BUF_SIZE {
                    if env.a[i] & env.b[i] != 0 {
                        return viol(format!("glyph overlaps an earlier one in row {}", i / WPL), case(&log));
                    }
                    env.b[i] |= env.a[i];
                }
                env.st.add("visible glyphs placed on pages", 1);
            }
        }
        env.st.nontrivial(fnv(112, log.as_bytes()));
        if idx % 64 == 0 {
            env.st.sample(|| format!("page in {}:{}", show_rect(&clip), log.chars().take(300).collect::<String>()));
        }
    }
    Ok(())
}
fn c11_hint(env: &mut Env, _idx: u64) -> Res {
    for st in STYLES {
        let h = glyph_to_height_hint(st);
        let m = &env.ctx.model;
        for e in &m.fonts[m.latin_font(st)].entries {
            env.st.evaluations += 1;
            if e.glyph.yoff + e.glyph.h > h {
                return viol(format!("glyph {} is {} high, hint {}", show_text(&e.text), e.glyph.yoff + e.glyph.h, h), format!("glyph_to_height_hint({:?})", st));
            }
        }
        env.st.nontrivial(st as u64);
    }
    Ok(())
}
/// Each glyph of a text painted in one call is what the text up to it adds
pub fn c11_text(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str) -> Res {
    let mut line_y = cur.pt.y;
    let (mut right, mut bottom, mut bottom_prev): (Option<usize>, Option<usize>, Option<usize>) = (None, None, None);
    let mut glyphs = 0;
    steps(env, clip, cur, st, s, &mut |p| {
        if p.after.pt.y < line_y {
            return Err("cursor moves up".into());
        }
        if p.after.pt.y != line_y {
            line_y = p.after.pt.y;
            bottom_prev = bottom.max(bottom_prev);
            bottom = None;
            right = None;
        }
        let b = match bbox(p.diff, 0, H) {
            None => return Ok(()),
            Some(b) => b,
        };
        for i in 0..FRAME_BUF_SIZE {
            if p.diff[i] & p.old[i] != 0 {
                return Err(format!("glyph takes back a pixel of an earlier one in row {}", i / WPL));
            }
        }
        let left = if p.before.pt.y == p.after.pt.y { p.before.pt.x } else { clip.min.x };
        if b.x0 < left + 1 || b.x1 + 2 >= p.after.pt.x {
            return Err(format!("columns {}..={} are not inside the glyph's box {}..{}", b.x0, b.x1, left, p.after.pt.x));
        }
        if let Some(rt) = right {
            if b.x0 < rt + 4 {
                return Err(format!("fewer than three blank columns between neighbours: {} .. {}", rt, b.x0));
            }
        }
        if let Some(bp) = bottom_prev {
            if b.y0 <= bp {
                return Err(format!("row {} of this line is not below row {} of an earlier line", b.y0, bp));
            }
        }
        if b.y0 < p.after.pt.y || b.y1 >= p.after.pt.y + p.after.line_height {
            return Err(format!("rows {}..={} are not inside the line {}..{}", b.y0, b.y1, p.after.pt.y, p.after.pt.y + p.after.line_height));
        }
        right = Some(b.x1);
        bottom = Some(b.y1.max(bottom.unwrap_or(0)));
        glyphs += 1;
        Ok(())
    })?;
    env.st.add("visible glyphs within texts", glyphs);
    env.st.nontrivial(key(clip, cur, st, s));
    Ok(())
}
fn c11_texts(env: &mut Env, idx: u64) -> Res {
    // whole texts in one call: each glyph is what the text up to it adds
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(113, idx);
    for i in 0..3 {
        let st = style(&mut r);
        let s = if r.chance(1, 2) { listed_text(&mut r, m, &ctx.pools, st, 40) } else { text(&mut r, m, &ctx.pools, 20) };
        if s.len() > 400 {
            continue;
        }
        let w = r.range(36, W);
        let x0 = r.usz(W - w + 1);
        let clip = rect(x0, r.usz(60), x0 + w, H);
        let cur = Cursor::from_top_left_of(clip);
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "zeros"));
        }
        c11_text(env, &clip, &cur, st, &s)?;
    }
    Ok(())
}
pub fn c11(ctx: &Ctx) -> Check {
    let chunks = (ctx.pools.all.len() as u64 + 63) / 64;
    Check {
        id: "C11",
        rule: "every cluster in every style on its own and before a newline; pages of random glyphs in random and mixed styles painted one by one with one cursor; random texts painted in one call, each glyph being what the text up to it adds; non-trivial: at least one pixel; observed: bounding box of each glyph's pixels against cursor before/after and line height, overlap with everything painted before",
        workloads: vec![
            Workload { name: "focus", quick: 60_000, thorough: 2_000_000, exhaustive: false, run: crate::fuzz::focus::<11> },
            Workload { name: "boxes", quick: chunks * 4, thorough: chunks * 64, exhaustive: true, run: c11_boxes },
            Workload { name: "hint", quick: 1, thorough: 1, exhaustive: true, run: c11_hint },
            Workload { name: "texts", quick: 30_000, thorough: 1_800_000, exhaustive: false, run: c11_texts },
            Workload { name: "pages", quick: 8_000, thorough: 600_000, exhaustive: false, run: c11_pages },
        ],
    }
}

// ---------------------------------------------------------------- C23
/// from, moved by (dx, dy), is it to?  Nothing of it may fall off.
fn is_moved(from: &FrBuf, to: &FrBuf, dx: isize, dy: isize, tmp: &mut FrBuf) -> bool {
    tmp.fill(0);
    for y in 0..H {
        let row = &from[y * WPL..(y + 1) * WPL];
        if row.iter().all(|w| *w == 0) {
            continue;
        }
        let ty = y as isize + dy;
        if ty < 0 || ty >= H as isize {
            return false;
        }
        let (q, k) = (dx.div_euclid(32), dx.rem_euclid(32));
        for (i, w) in row.iter().enumerate() {
            let v = (*w as u64) << k;
            for (at, v) in [(i as isize + q, v as u32), (i as isize + q + 1, (v >> 32) as u32)] {
                if v == 0 {
                    continue;
                }
                if at < 0 || at >= WPL as isize {
                    return false;
                }
                tmp[ty as usize * WPL + at as usize] |= v;
            }
        }
    }
    same(tmp, to)
}
/// How far the call may be moved: rectangle on the screen, cursor not below zero
fn room(clip: &ClipRect, cur: &Cursor) -> ((isize, isize), (isize, isize)) {
    let lo = |a: usize, b: usize| -(a.min(b) as isize);
    ((lo(clip.min.x, cur.pt.x), (W - clip.max.x) as isize), (lo(clip.min.y, cur.pt.y), (H - clip.max.y) as isize))
}
/// Paint here and there, over zeros
pub fn moved(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str, dx: isize, dy: isize) -> Res {
    env.st.evaluations += 1;
    let mv = |p: Pt| Pt { x: (p.x as isize + dx) as usize, y: (p.y as isize + dy) as usize };
    let there = ClipRect { min: mv(clip.min), max: mv(clip.max) };
    let cur2 = Cursor { pt: mv(cur.pt), line_height: cur.line_height };
    let (mut c1, mut c2) = (*cur, cur2);
    paint_str(&mut env.a, *clip, &mut c1, st, s);
    paint_str(&mut env.b, there, &mut c2, st, s);
    let ok = is_moved(&env.a, &env.b, dx, dy, &mut env.c);
    let want = Cursor { pt: mv(c1.pt), line_height: c1.line_height };
    if ok && c2 == want {
        if env.a.iter().any(|w| *w != 0) {
            env.st.nontrivial(key(clip, cur, st, s) ^ (dx as u64) << 20 ^ (dy as u64));
        }
        wipe_all(env);
        return Ok(());
    }
    let what = if ok {
        format!("the cursor ends at {} and not {}", show_cur(&c2), show_cur(&want))
    } else {
        format!("other pixels: {}", show_diff(&env.c, &env.b))
    };
    viol(format!("moved by ({dx},{dy}), with cursor {}: {what}", show_cur(&cur2)), show_call(clip, cur, st, s, "zeros"))
}
pub fn clear_moved(env: &mut Env, clip: &ClipRect, dx: isize, dy: isize) -> Res {
    env.st.evaluations += 1;
    let mv = |p: Pt| Pt { x: (p.x as isize + dx) as usize, y: (p.y as isize + dy) as usize };
    let there = ClipRect { min: mv(clip.min), max: mv(clip.max) };
    clear_region(&mut env.a, *clip);
    clear_region(&mut env.b, there);
    if !is_moved(&env.a, &env.b, dx, dy, &mut env.c) {
        return viol(
            format!("clearing the rectangle moved by ({dx},{dy}) changes other pixels: {}", show_diff(&env.c, &env.b)),
            format!("clear_region(({},{})..({},{}))", clip.min.x, clip.min.y, clip.max.x, clip.max.y),
        );
    }
    env.st.add("regions cleared in two places", 1);
    wipe_all(env);
    Ok(())
}
/// A move made of two numbers
pub fn a_move(clip: &ClipRect, cur: &Cursor, n: usize, k: usize) -> (isize, isize) {
    let ((x0, x1), (y0, y1)) = room(clip, cur);
    (x0 + (n % (x1 - x0 + 1) as usize) as isize, y0 + (k % (y1 - y0 + 1) as usize) as isize)
}
fn small_text(env: &Env, r: &mut Rng, st: GlyphStyle) -> String {
    let m = &env.ctx.model;
    match r.below(4) {
        0 => listed_text(r, m, &env.ctx.pools, st, 3),
        1 => listed_text(r, m, &env.ctx.pools, st, 30),
        _ => text(r, m, &env.ctx.pools, 16),
    }
}
/// One small rectangle at every position of the screen
fn c23_positions(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(231, idx);
    wipe_all(env);
    let (w, h) = (r.range(30, 110), r.range(25, 90));
    let st = style(&mut r);
    let s = listed_text(&mut r, &env.ctx.model, &env.ctx.pools, st, 5);
    let (cx, cy) = (r.usz(w), r.usz(20));
    let lh = *r.pick(&[0usize, 0, 30, 32]);
    // all columns at some heights, all heights at some columns
    for y in [0, H - h, r.usz(H - h + 1)] {
        for x in 0..=W - w {
            moved(env, &rect(0, 0, w, h), &Cursor::new(cx, cy, lh), st, &s, x as isize, y as isize)?;
        }
    }
    for x in [0, W - w, r.usz(W - w + 1)] {
        for y in 0..=H - h {
            moved(env, &rect(0, 0, w, h), &Cursor::new(cx, cy, lh), st, &s, x as isize, y as isize)?;
        }
    }
    env.st.add("rectangles moved to every column and every row", 1);
    Ok(())
}
fn c23_clusters(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(232, idx);
    wipe_all(env);
    let n = ctx.pools.all.len() as u64;
    for i in (idx * 16 % n)..(idx * 16 % n + 16).min(n) {
        let (f, k) = ctx.pools.all[i as usize];
        let e = &m.fonts[f].entries[k];
        let st = style_for(m, f, r.usz(3));
        // as wide as the screen leaves room for the move, narrow, or at the wrap
        for _ in 0..4 {
            let w = match r.below(3) {
                0 => r.range(1, 40),
                1 => e.glyph.w + r.usz(8) + 1,
                _ => r.range(1, W),
            };
            let h = if r.chance(1, 2) { r.range(1, 40) } else { r.range(1, H) };
            let (x0, y0) = (r.usz(W - w + 1), r.usz(H - h + 1));
            let clip = rect(x0, y0, x0 + w, y0 + h);
            let cur = near_cursor(&mut r, &clip);
            let (dx, dy) = a_move(&clip, &cur, r.usz(W), r.usz(H));
            moved(env, &clip, &cur, st, &e.text, dx, dy)?;
        }
    }
    Ok(())
}
fn c23_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(233, idx);
    wipe_all(env);
    for i in 0..20 {
        let st = style(&mut r);
        let s = small_text(env, &mut r, st);
        let clip = on_screen(&mut r);
        let cur = near_cursor(&mut r, &clip);
        let (n, k) = match r.below(4) {
            0 => (0, 0), // to the left and up as far as it goes
            1 => ((W - (clip.max.x - clip.min.x)), (H - (clip.max.y - clip.min.y))),
            _ => (r.usz(W), r.usz(H)),
        };
        let (dx, dy) = a_move(&clip, &cur, n, k);
        if i == 0 {
            env.st.sample(|| format!("{} moved by ({dx},{dy})", show_call(&clip, &cur, st, &s, "zeros")));
        }
        moved(env, &clip, &cur, st, &s, dx, dy)?;
        clear_moved(env, &clip, dx, dy)?;
    }
    Ok(())
}
/// Every width at every column, every height at every row
fn c23_clears(env: &mut Env, idx: u64) -> Res {
    wipe_all(env);
    let mut r = env.rng(234, idx);
    let n = idx as usize + 1;
    if n <= W {
        let y = r.usz(H - 2);
        for x in 0..=W - n {
            clear_moved(env, &rect(0, y, n, y + 2), x as isize, 0)?;
        }
    }
    let x = r.usz(W - 40);
    for y in 0..=H - n {
        clear_moved(env, &rect(x, 0, x + 40, n), 0, y as isize)?;
    }
    Ok(())
}
pub fn c23(ctx: &Ctx) -> Check {
    let n = (ctx.pools.all.len() as u64 + 15) / 16;
    Check {
        id: "C23",
        rule: "a call and the same call with rectangle and cursor moved: rectangles moved to every column and every row, every cluster in narrow, tight and wide rectangles, random texts and moves; regions of every width cleared at every column and of every height at every row; non-trivial: something painted; observed: both frame buffers over zeros and both cursors",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<23> },
            Workload { name: "clears", quick: H as u64, thorough: H as u64, exhaustive: true, run: c23_clears },
            Workload { name: "positions", quick: 1_500, thorough: 60_000, exhaustive: false, run: c23_positions },
            Workload { name: "clusters", quick: 4 * n, thorough: 60 * n, exhaustive: false, run: c23_clusters },
            Workload { name: "random", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: c23_random },
        ],
    }
}

// ---------------------------------------------------------------- C20
fn c20_rects(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(201, idx);
    let xs = crate::checks::a::XS;
    for i in 0..400 {
        let mut v = || match r.below(3) {
            0 => *r.pick(xs),
            1 => extreme(&mut r),
            _ => r.usz(600),
        };
        let (mut a, b, mut c, d) = (v(), v(), v(), v());
        if i % 5 == 0 {
            a = c;
        }
        if i % 7 == 0 {
            c = b;
        }
        let near = |r: &mut Rng, v: usize| if r.chance(1, 2) { v } else { v ^ 1 << r.below(usize::BITS as u64) };
        let o = [near(&mut r, a), near(&mut r, b), near(&mut r, c), near(&mut r, d)];
        c20_args(env, [a, b, c, d], o)?;
    }
    Ok(())
}
pub fn c20_args(env: &mut Env, raw: [usize; 4], o: [usize; 4]) -> Res {
    {
        let [a, b, c, d] = raw;
        let got = ClipRect::new(a, b, c, d);
        env.st.evaluations += 1;
        env.st.nontrivial(a as u64 ^ (b as u64).rotate_left(16) ^ (c as u64).rotate_left(32) ^ (d as u64).rotate_left(48));
        let case = || format!("ClipRect::new({}, {}, {}, {})", a, b, c, d);
        if (got.min.x, got.max.x) != (a.min(c), a.max(c)) || (got.min.y, got.max.y) != (b.min(d), b.max(d)) {
            return viol(format!("gives {}", show_rect(&got)), case());
        }
        let cu = Cursor::from_top_left_of(got);
        if cu.pt.x != got.min.x || cu.pt.y != got.min.y || cu.line_height != 0 {
            return viol(format!("Cursor::from_top_left_of gives {}", show_cur(&cu)), case());
        }
        let cu = Cursor::new(a, b, c);
        if cu.pt.x != a || cu.pt.y != b || cu.line_height != c {
            return viol(format!("gives {}", show_cur(&cu)), format!("Cursor::new({}, {}, {})", a, b, c));
        }
        let p = Pt::new(a, b);
        if p.x != a || p.y != b {
            return viol(format!("gives ({}, {})", p.x, p.y), format!("Pt::new({}, {})", a, b));
        }
        // equality and order
        let (r1, r2) = (rect(raw[0], raw[1], raw[2], raw[3]), rect(o[0], o[1], o[2], o[3]));
        if (r1 == r2) != (raw == o) || (r1 != r2) != (raw != o) {
            return viol("rectangle equality", format!("{} == {}", show_rect(&r1), show_rect(&r2)));
        }
        let (c1, c2) = (Cursor::new(raw[0], raw[1], raw[2]), Cursor::new(o[0], o[1], o[2]));
        if (c1 == c2) != (raw[..3] == o[..3]) {
            return viol("cursor equality", format!("{} == {}", show_cur(&c1), show_cur(&c2)));
        }
        let (p1, p2) = (Pt::new(raw[0], raw[1]), Pt::new(o[0], o[1]));
        let want = (raw[0], raw[1]).partial_cmp(&(o[0], o[1]));
        if (p1 == p2) != (raw[..2] == o[..2]) || p1.partial_cmp(&p2) != want || (p1 < p2) != ((raw[0], raw[1]) < (o[0], o[1])) {
            return viol("point order", format!("{:?} ? {:?}", p1, p2));
        }
    }
    Ok(())
}
fn c20_styles(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(202, idx);
    for i in 0..5000u64 {
        let n = match i % 3 {
            0 => (idx * 1700 + i / 3) as usize,
            1 => extreme(&mut r),
            _ => *r.pick(crate::checks::a::XS),
        };
        c20_style(env, n)?;
    }
    Ok(())
}
pub fn c20_style(env: &mut Env, n: usize) -> Res {
    {
        let st = GlyphStyle::from(n);
        env.st.evaluations += 1;
        env.st.nontrivial(n as u64);
        let want = match n {
            0 => GlyphStyle::Small,
            2 => GlyphStyle::Bold,
            _ => GlyphStyle::Regular,
        };
        if st != want {
            return viol(format!("gives {:?}", st), format!("GlyphStyle::from({})", n));
        }
        let back: usize = st.into();
        if back != want as usize || GlyphStyle::from(back) != want || (n < 3 && back != n) {
            return viol(format!("converts back to {}", back), format!("GlyphStyle::from({})", n));
        }
    }
    Ok(())
}
fn c20_screens(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(203, idx);
    if (WIDTH, LINES, WORDS_PER_LINE, FRAME_BUF_SIZE) != (W, H, WPL, WPL * H) {
        return viol(format!("{} {} {} {}", WIDTH, LINES, WORDS_PER_LINE, FRAME_BUF_SIZE), "frame buffer constants");
    }
    // stripes: every line of a new frame buffer is the same, whatever happened before
    static CONST_FB: FrBuf = new_fr_buf();
    let fresh = Box::new(new_fr_buf());
    env.st.evaluations += 1;
    if *fresh != CONST_FB || fresh.chunks(WPL).any(|l| l != &fresh[..WPL]) || (0..W).all(|x| fresh[x / 32] >> (x % 32) & 1 == fresh[0] & 1) {
        return viol("does not give the same vertical stripes on every line every time", "new_fr_buf()");
    }
    for (name, c, x0, y0, x1, y1) in [("full_screen", ClipRect::full_screen(), 0, 0, W, H), ("padded_screen", ClipRect::padded_screen(), 6, 6, W - 6, H - 6)] {
        env.st.evaluations += 1;
        if c != rect(x0, y0, x1, y1) {
            return viol(format!("gives {}", show_rect(&c)), format!("ClipRect::{}()", name));
        }
        fill_fb(&mut r, &mut env.a);
        let a = &*env.a;
        env.b.copy_from_slice(a);
        clear_region(&mut env.a, c);
        for y in y0..y1 {
            for w in 0..WPL {
                env.b[y * WPL + w] |= colmask(w, x0, x1);
            }
        }
        if !same(&env.a, &env.b) {
            return viol(show_diff(&env.a, &env.b), format!("clearing ClipRect::{}()", name));
        }
        let s = listed_text(&mut r, &env.ctx.model, &env.ctx.pools, GlyphStyle::Regular, 30);
        let mut cu = Cursor::from_top_left_of(c);
        paint_str(&mut env.a, c, &mut cu, GlyphStyle::Regular, &s);
        if let Some((x, y)) = diff_outside(&env.a, &env.b, &c) {
            return viol(format!("pixel ({},{}) outside changed", x, y), format!("painting {} in ClipRect::{}()", show_text(&s), name));
        }
        env.st.nontrivial(fnv(203, s.as_bytes()));
    }
    Ok(())
}
pub fn c20(_ctx: &Ctx) -> Check {
    Check {
        id: "C20",
        rule: "random and extreme numbers, equal and swapped corners, values that differ in one bit; non-trivial: distinct argument tuples; observed: returned values against their definition",
        workloads: vec![
            Workload { name: "focus", quick: 400_000, thorough: 12_000_000, exhaustive: false, run: crate::fuzz::focus::<20> },
            Workload { name: "rects", quick: 30_000, thorough: 360_000, exhaustive: false, run: c20_rects },
            Workload { name: "styles", quick: 100, thorough: 2000, exhaustive: false, run: c20_styles },
            Workload { name: "screens", quick: 200, thorough: 4000, exhaustive: false, run: c20_screens },
        ],
    }
}

// ---------------------------------------------------------------- C21
/// env.a and env.b zero on entry and on successful return
pub fn same_paint(env: &mut Env, clip: &ClipRect, cur: &Cursor, st1: GlyphStyle, s1: &str, st2: GlyphStyle, s2: &str) -> Res {
    env.st.evaluations += 1;
    let (mut c1, mut c2) = (*cur, *cur);
    paint_str(&mut env.a, *clip, &mut c1, st1, s1);
    paint_str(&mut env.b, *clip, &mut c2, st2, s2);
    if !same(&env.a, &env.b) || c1 != c2 {
        let msg = format!(
            "differs from {:?} {}: {}; cursor {} / {}",
            st2,
            show_text(s2),
            show_diff(&env.a, &env.b),
            show_cur(&c1),
            show_cur(&c2)
        );
        if !collision_explains(env, clip, cur, st1, s1) && !collision_explains(env, clip, cur, st2, s2) {
            return viol(msg, show_call(clip, cur, st1, s1, "zeros"));
        }
    }
    env.st.nontrivial(key(clip, cur, st1, s1));
    wipe_all(env);
    Ok(())
}
/// In these surroundings both spellings must be read as the same glyphs; check with the model
/// (by bitmap, since an alias is an entry of its own).
pub fn comparable(m: &Model, st: GlyphStyle, a: &str, b: &str) -> bool {
    let f = |s: &str| -> Vec<String> {
        m.tokens(st, s, Match::Exact)
            .iter()
            .map(|t| match *t {
                Tok::Newline(_) => "\n".into(),
                Tok::Glyph(f, k, _, _) => format!("{}{}", f, m.fonts[f].entries[k].canon),
                Tok::Unknown(f, _, _, _) => format!("{}\u{FFFD}", f),
            })
            .collect()
    };
    f(a) == f(b)
}
fn pairs(ctx: &Ctx) -> Vec<(usize, String, String)> {
    // (font, spelling, other spelling)
    let m = &ctx.model;
    let mut v = vec![];
    for st in 0..3 {
        for (a, b) in &m.nfd_pairs {
            if m.fonts[m.latin[st]].entry(a).is_some() {
                v.push((m.latin[st], a.clone(), b.clone()));
            }
        }
    }
    for (f, font) in m.fonts.iter().enumerate() {
        for e in font.entries.iter().filter(|e| e.alias) {
            if f == m.emoji || f == m.hanzi {
                v.push((f, e.canon.clone(), e.text.clone()));
            }
        }
    }
    v
}
/// The text with every cluster (or, by a bit of mask each, some) in its other spelling
pub fn respelled(ctx: &Ctx, st: GlyphStyle, s: &str, mask: u8) -> String {
    type Other = std::collections::HashMap<(usize, String), Vec<String>>;
    static OTHER: std::sync::OnceLock<Other> = std::sync::OnceLock::new();
    let other = OTHER.get_or_init(|| {
        let mut o = Other::new();
        for (f, a, b) in pairs(ctx) {
            o.entry((f, a.clone())).or_default().push(b.clone());
            o.entry((f, b)).or_default().push(a);
        }
        o
    });
    let mut out = String::new();
    for (i, t) in ctx.model.tokens(st, s, Match::Exact).iter().enumerate() {
        let (a, b) = t.range();
        let mut w = &s[a..b];
        if mask >> (i % 8) & 1 == 0 {
            if let Tok::Glyph(f, _, _, _) = *t {
                if let Some(v) = other.get(&(f, w.to_string())) {
                    w = &v[i % v.len()];
                }
            }
        }
        out.push_str(w);
    }
    out
}
/// The emoji and CJK clusters and line breaks of a text
pub fn style_free(m: &Model, s: &str) -> Option<String> {
    let ok = |t: &Tok| matches!(*t, Tok::Newline(_)) || matches!(*t, Tok::Glyph(f, _, _, _) if f == m.emoji || f == m.hanzi);
    let out: String = m.tokens(GlyphStyle::Regular, s, Match::Exact).iter().filter(|t| ok(t)).map(|t| &s[t.range().0..t.range().1]).collect();
    if STYLES.iter().all(|st| m.tokens(*st, &out, Match::Exact).iter().all(ok)) {
        Some(out)
    } else {
        None
    }
}
fn c21_pairs(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(211, idx);
    let all = pairs(ctx);
    wipe_all(env);
    let rounds = if ctx.thorough { 12_000 } else { 400 };
    for i in idx as usize * 8..(idx as usize * 8 + 8).min(all.len()) {
        let (f, a, b) = &all[i];
        let sts: Vec<GlyphStyle> = STYLES.iter().copied().filter(|s| !m.latin.contains(f) || m.latin_font(*s) == *f).collect();
        for st in sts {
            // alone, at every alignment
            for x in 0..34 {
                same_paint(env, &full(), &Cursor::new(x, x * 7, 0), st, a, st, b)?;
            }
            for _ in 0..rounds {
                let pre = if r.chance(1, 4) { String::new() } else { text(&mut r, m, &ctx.pools, 4) };
                let post = if r.chance(1, 3) { String::new() } else { text(&mut r, m, &ctx.pools, 4) };
                let (s1, s2) = (format!("{}{}{}", pre, a, post), format!("{}{}{}", pre, b, post));
                if !comparable(m, st, &s1, &s2) {
                    env.st.add("skipped: surroundings join with one spelling", 1);
                    continue;
                }
                let clip = if r.chance(1, 2) { full() } else { on_screen(&mut r) };
                let cur = near_cursor(&mut r, &clip);
                same_paint(env, &clip, &cur, st, &s1, st, &s2)?;
            }
            // every occurrence
            let (s1, s2) = (a.repeat(20), b.repeat(20));
            if comparable(m, st, &s1, &s2) {
                same_paint(env, &full(), &Cursor::new(0, 0, 0), st, &s1, st, &s2)?;
            }
        }
        env.st.add("pairs of spellings", 1);
        if i % 100 == 0 {
            env.st.sample(|| format!("{} and {}", show_text(a), show_text(b)));
        }
    }
    Ok(())
}
fn c21_styles(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(212, idx);
    wipe_all(env);
    for i in idx as usize * 64..(idx as usize * 64 + 64).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        if m.latin.contains(&f) {
            continue;
        }
        let t = &m.fonts[f].entries[k].text;
        // CJK glyphs only where no Latin font has its own
        if STYLES.iter().any(|st| m.lookup(*st, t, Match::Exact).map(|l| (l.0, l.2)) != Some((f, t.len()))) {
            continue;
        }
        let cur = Cursor::new(r.usz(W), r.usz(H), *r.pick(&[0usize, 24, 30, 40]));
        for st in [GlyphStyle::Small, GlyphStyle::Bold] {
            same_paint(env, &full(), &cur, st, t, GlyphStyle::Regular, t)?;
        }
    }
    Ok(())
}
fn c21_style_texts(env: &mut Env, idx: u64) -> Res {
    // texts of emoji and CJK only, also wrapped and clipped
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(213, idx);
    wipe_all(env);
    for _ in 0..10 {
        let mut s = String::new();
        for _ in 0..r.range(1, 30) {
            let f = if r.chance(1, 2) { m.emoji } else { m.hanzi };
            s.push_str(&m.fonts[f].entries[*r.pick(&ctx.pools.by_font[f])].text);
            if r.chance(1, 10) {
                s.push('\n');
            }
        }
        let ok = |st| m.tokens(st, &s, Match::Exact).iter().all(|t| matches!(*t, Tok::Newline(_)) || matches!(*t, Tok::Glyph(f, _, _, _) if f == m.emoji || f == m.hanzi));
        if !STYLES.iter().all(|st| ok(*st)) {
            continue;
        }
        let clip = on_screen(&mut r);
        let cur = near_cursor(&mut r, &clip);
        same_paint(env, &clip, &cur, GlyphStyle::Small, &s, GlyphStyle::Regular, &s)?;
        same_paint(env, &clip, &cur, GlyphStyle::Bold, &s, GlyphStyle::Regular, &s)?;
    }
    Ok(())
}
pub fn c21(ctx: &Ctx) -> Check {
    let n = (pairs(ctx).len() as u64 + 7) / 8;
    let chunks = (ctx.pools.all.len() as u64 + 63) / 64;
    Check {
        id: "C21",
        rule: "every letter with a canonical decomposition (from Unicode data) and every listed alias, alone at 34 alignments, repeated, and in random surroundings; every emoji and CJK cluster in the three styles; non-trivial: distinct calls; observed: frame buffers and cursors of both",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<21> },
            Workload { name: "pairs", quick: n, thorough: n, exhaustive: true, run: c21_pairs },
            Workload { name: "styles", quick: chunks, thorough: chunks, exhaustive: true, run: c21_styles },
            Workload { name: "style_texts", quick: 60_000, thorough: 360_000, exhaustive: false, run: c21_style_texts },
        ],
    }
}

// ---------------------------------------------------------------- C15 (native part)
fn scene(n: u64, fb: &mut FrBuf) {
    match n % 3 {
        0 => demo::sample_text(fb),
        1 => demo::goose_poem(fb),
        _ => demo::short_greeting(fb),
    }
}
const SCENES: [&str; 3] = ["sample_text", "goose_poem", "short_greeting"];
fn visible_diff(a: &FrBuf, b: &FrBuf) -> Option<(usize, usize)> {
    for i in 0..FRAME_BUF_SIZE {
        let d = (a[i] ^ b[i]) & colmask(i % WPL, 0, W);
        if d != 0 {
            return Some(((i % WPL) * 32 + d.trailing_zeros() as usize, i / WPL));
        }
    }
    None
}
fn c15_scenes(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(151, idx);
    for n in 0..3u64 {
        *env.b = new_fr_buf();
        scene(n, &mut env.b);
        for k in 0..4 {
            fill_fb(&mut r, &mut env.a);
            let mut hist = vec![];
            for _ in 0..r.usz(4) {
                match r.below(3) {
                    0 => {
                        let clip = on_screen(&mut r);
                        let s = text(&mut r, &env.ctx.model, &env.ctx.pools, 10);
                        let mut c = near_cursor(&mut r, &clip);
                        paint_str(&mut env.a, clip, &mut c, style(&mut r), &s);
                        hist.push("paint".to_string());
                    }
                    _ => {
                        let j = r.below(3);
                        hist.push(SCENES[j as usize].into());
                        scene(j, &mut env.a);
                    }
                }
            }
            scene(n, &mut env.a);
            env.st.evaluations += 1;
            env.st.nontrivial(idx << 8 | n << 4 | k);
            let case = format!("random frame buffer, then {:?}, then {}", hist, SCENES[n as usize]);
            if k == 0 && n == 0 {
                env.st.sample(|| case.clone());
            }
            if let Some((x, y)) = visible_diff(&env.a, &env.b) {
                return viol(format!("pixel ({},{}) is not as after the scene alone", x, y), case);
            }
            // the scene again
            scene(n, &mut env.a);
            if let Some((x, y)) = visible_diff(&env.a, &env.b) {
                return viol(format!("repeated: pixel ({},{}) is not as after the scene alone", x, y), case);
            }
        }
        // something must be on the screen
        let dark: u32 = (0..FRAME_BUF_SIZE).map(|i| (!env.b[i] & colmask(i % WPL, 0, W)).count_ones()).sum();
        env.st.add("dark pixels of scenes", dark as u64);
        if dark == 0 {
            return viol("scene leaves an empty screen", SCENES[n as usize]);
        }
    }
    Ok(())
}
pub fn c15(_ctx: &Ctx) -> Check {
    Check {
        id: "C15",
        rule: "random frame buffers and random histories of scenes and paints before each scene; non-trivial: distinct histories; observed: all visible pixels against the scene on a fresh frame buffer",
        workloads: vec![Workload { name: "scenes", quick: 6_000, thorough: 360_000, exhaustive: false, run: c15_scenes }],
    }
}

// ---------------------------------------------------------------- C13 (one build's share)
/// A number that fits in 32 bits
fn coord32(r: &mut Rng, lim: usize) -> usize {
    match r.below(20) {
        0 => (1usize << 30) - r.usz(100),
        1 => 0xFFFF - r.usz(4) + 2,
        2 => r.usz(1 << 28),
        3 => (1usize << 31) - r.usz(70),
        4 => (1usize << 31) + r.usz(70),
        5 => u32::MAX as usize - r.usz(70),
        6 => r.u32() as usize,
        7 => (1usize << r.below(32)) + r.usz(2),
        8 | 9 => lim + r.usz(64),
        _ => r.usz(lim + 1),
    }
}
/// Move a cursor up so that it stays below 2^32 while a text is painted
fn keep32(r: &mut Rng, c: Cursor) -> Cursor {
    let room = u32::MAX as usize - 4_000_000;
    let (mut y, mut lh) = (c.pt.y.min(room), c.line_height.min(room));
    if y > room - lh {
        if r.chance(1, 2) {
            y = room - lh
        } else {
            lh = room - y
        }
    }
    Cursor::new(c.pt.x, y, lh)
}
fn cursor32(r: &mut Rng) -> Cursor {
    Cursor::new(coord32(r, W), coord32(r, H), coord32(r, 60))
}
fn digest(env: &mut Env, c: &Cursor) {
    let mut h = 0xcbf29ce484222325u64;
    for w in env.a.iter() {
        h = (h ^ *w as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 27;
    }
    for v in [c.pt.x, c.pt.y, c.line_height] {
        h = (h ^ v as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
    env.st.digest = env.st.digest.rotate_left(5) ^ h;
}
/// env.a: painted by the library, digest depends on nothing but its results; env.b: model
pub fn c13_script(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(131, idx);
    env.st.digest = idx;
    let (m, p) = (&env.ctx.model, &env.ctx.pools);
    fill_fb(&mut r, &mut env.a);
    let a = &*env.a;
    env.b.copy_from_slice(a);
    for i in 0..12 {
        if r.chance(1, 4) {
            let c = if r.chance(1, 2) { on_screen(&mut r) } else { rect(coord32(&mut r, W), coord32(&mut r, H), coord32(&mut r, W), coord32(&mut r, H)) };
            clear_region(&mut env.a, c);
            clear_region(&mut env.b, c);
            env.st.evaluations += 1;
            continue;
        }
        let st = GlyphStyle::from(r.usz(4));
        let s = match r.below(4) {
            0 => {
                let (f, k) = *r.pick(&p.all);
                m.fonts[f].entries[k].text.repeat(r.range(1, 3))
            }
            1 => listed_text(&mut r, m, p, st, 40),
            _ => text(&mut r, m, p, 16),
        };
        let clip = match r.below(8) {
            0 => rect(coord32(&mut r, W), coord32(&mut r, H), coord32(&mut r, W), coord32(&mut r, H)),
            _ => on_screen(&mut r),
        };
        let cur = if r.chance(3, 4) { near_cursor(&mut r, &clip) } else { cursor32(&mut r) };
        let cur = keep32(&mut r, cur);
        if Model::valid_clip(&clip) {
            env.st.nontrivial(key(&clip, &cur, st, &s));
            if i == 0 {
                env.st.sample(|| show_call(&clip, &cur, st, &s, "random"));
            }
            vs_model(env, &clip, &cur, st, &s, "random", true)?;
            let mut c = cur;
            paint_str(&mut env.a, clip, &mut c, st, &s);
            paint_str(&mut env.b, clip, &mut { cur }, st, &s);
            digest(env, &c);
        } else {
            env.st.evaluations += 1;
            let mut c = cur;
            paint_str(&mut env.a, clip, &mut c, st, &s);
            if !same(&env.a, &env.b) {
                return viol(format!("painted in an unusable clip rectangle: {}", show_diff(&env.a, &env.b)), show_call(&clip, &cur, st, &s, "random"));
            }
            digest(env, &c);
        }
    }
    let d = env.st.digest;
    env.st.xor_digest ^= crate::rng::mix(d ^ idx);
    Ok(())
}
/// Calls and their results according to the model, for a target that only an interpreter runs
#[cfg(not(target_family = "wasm"))]
pub fn foreign(env: &mut Env, n: u64) -> Vec<String> {
    let mut out = vec![];
    let (m, p) = (&env.ctx.model, &env.ctx.pools);
    env.b.fill(0);
    for i in 0..n {
        let mut r = env.rng(139, i);
        let mut touched = (H, 0);
        for k in 0..4 {
            if i % 40 == 39 && k == 0 {
                // a scene shows the same as natively, where other checks judge it
                let mut fb: Box<FrBuf> = Box::new([0; blitstr::FRAME_BUF_SIZE]);
                fb.copy_from_slice(&*env.b);
                demo::short_greeting(&mut fb);
                env.b.copy_from_slice(&fb[..]);
                out.push("scene short_greeting".into());
                touched = (0, H);
                continue;
            }
            if r.chance(1, 6) {
                let y = r.usz(H - 8);
                let c = rect(r.usz(W), y, r.usz(W + 1), y + r.usz(8));
                if Model::valid_clip(&c) {
                    for y in c.min.y..c.max.y {
                        for w in 0..WPL {
                            env.b[y * WPL + w] |= colmask(w, c.min.x, c.max.x);
                        }
                    }
                }
                out.push(format!("clear {} {} {} {}", c.min.x, c.min.y, c.max.x, c.max.y));
                touched = (touched.0.min(c.min.y), touched.1.max(c.max.y));
                continue;
            }
            let st = GlyphStyle::from(r.usz(3));
            let s = match (k, r.below(4)) {
                (0, _) => {
                    // clusters in order, so that fonts and widths come round
                    let (f, k) = if r.chance(1, 2) { p.widths[i as usize % p.widths.len()] } else { *r.pick(&p.all) };
                    m.fonts[f].entries[k].text.clone()
                }
                (_, 0) => listed_text(&mut r, m, p, st, 6),
                (_, 1) => ["\u{416}", "\u{e9}", "e\u{301}", "\u{10FFFF}a", "\n\n", "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}"][r.usz(6)].into(),
                _ => text(&mut r, m, p, 4),
            };
            let clip = if r.chance(1, 8) { rect(coord32(&mut r, W), coord32(&mut r, H), coord32(&mut r, W), coord32(&mut r, H)) } else { on_screen(&mut r) };
            let cur = if r.chance(3, 4) { near_cursor(&mut r, &clip) } else { cursor32(&mut r) };
            let cur = keep32(&mut r, cur);
            if !Model::valid_clip(&clip) || m.collides(st, &s) || s.len() > 300 {
                continue;
            }
            let mut mc = to_mcur(&cur);
            m.paint(&mut env.b, &clip, &mut mc, st, &s, Match::Exact);
            if mc.x.max(mc.y).max(mc.lh) > u32::MAX as u128 {
                continue; // nothing was painted so far down
            }
            touched = (touched.0.min(cur.pt.y), touched.1.max((mc.y as usize).saturating_add(40)));
            let hex: String = s.bytes().map(|b| format!("{:02x}", b)).collect();
            out.push(format!(
                "paint {} {} {} {} {} {} {} {} {} {} {} {}",
                clip.min.x, clip.min.y, clip.max.x, clip.max.y, cur.pt.x, cur.pt.y, cur.line_height, st as usize, mc.x, mc.y, mc.lh, hex
            ));
        }
        if i % 16 == 15 {
            touched = (0, H);
        }
        let (y0, y1) = (touched.0.min(H), touched.1.min(H));
        if y0 < y1 {
            let h = env.b[y0 * WPL..y1 * WPL].iter().fold(0xcbf29ce484222325u64, |h, w| (h ^ *w as u64).wrapping_mul(0x100000001b3));
            out.push(format!("look {} {} {}", y0, y1, h));
        }
    }
    out
}
/// Every cluster in every style; idx: chunk of 64 clusters
pub fn c13_clusters(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    wipe_all(env);
    env.st.digest = idx;
    for i in idx as usize * 64..(idx as usize * 64 + 64).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let e = &ctx.model.fonts[f].entries[k];
        for st in STYLES {
            let cur = Cursor::new(i * 7 % 300, i * 11 % 500, 0);
            vs_model(env, &full(), &cur, st, &e.text, "zeros", true)?;
            digest(env, &cur);
            wipe_all(env);
        }
        env.st.nontrivial(i as u64 ^ 1 << 40);
    }
    let d = env.st.digest;
    env.st.xor_digest ^= crate::rng::mix(d ^ idx ^ 1 << 50);
    Ok(())
}
/// Every scalar value alone; idx: chunk
pub fn c13_scalars(env: &mut Env, idx: u64) -> Res {
    wipe_all(env);
    env.st.digest = idx;
    let mut s = String::new();
    for c in scalars(idx) {
        s.clear();
        s.push(c);
        let cur = Cursor::new(c as usize % 300, 10, 0);
        vs_model(env, &full(), &cur, STYLES[c as usize % 3], &s, "zeros", true)?;
        wipe(env, 0, 64);
        env.st.nontrivial(c as u64 ^ 1 << 41);
    }
    Ok(())
}
/// Demo scenes
pub fn c13_scenes(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(134, idx);
    env.st.digest = idx;
    fill_fb(&mut r, &mut env.a);
    scene(idx, &mut env.a);
    env.st.evaluations += 1;
    digest(env, &Cursor::new(0, 0, 0));
    let d = env.st.digest;
    env.st.xor_digest ^= crate::rng::mix(d ^ idx ^ 1 << 51);
    Ok(())
}
pub fn c13(ctx: &Ctx) -> Check {
    let chunks = (ctx.pools.all.len() as u64 + 63) / 64;
    Check {
        id: "C13",
        rule: "the same workload run in every build: random call sequences with 32-bit arguments, every cluster in every style, every scalar value, demo scenes; non-trivial: distinct calls; observed in each build: frame buffer and cursor against the reference model, and digests of all results compared between builds",
        workloads: vec![
            Workload { name: "script", quick: 24_000, thorough: 900_000, exhaustive: false, run: c13_script },
            Workload { name: "clusters", quick: chunks, thorough: chunks, exhaustive: true, run: c13_clusters },
            Workload { name: "scalars", quick: SCALARS / CHUNK, thorough: SCALARS / CHUNK, exhaustive: true, run: c13_scalars },
            Workload { name: "scenes", quick: 60, thorough: 1_800, exhaustive: false, run: c13_scenes },
        ],
    }
}

// ---------------------------------------------------------------- C17: generated fonts
fn c17_clusters(env: &mut Env, idx: u64) -> Res {
    // like C04 and C05, for whatever fonts this library was built with: every cluster in every style
    // at 34 alignments, alone and followed by another listed cluster
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(171, idx);
    wipe_all(env);
    for i in idx as usize * 16..(idx as usize * 16 + 16).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let e = &m.fonts[f].entries[k];
        for st in STYLES {
            for x in 0..34 {
                let cur = Cursor::new(x * (1 + i % 8), r.usz(450), 0);
                vs_model(env, &full(), &cur, st, &e.text, "zeros", false)?;
                wipe(env, cur.pt.y, cur.pt.y + 80);
            }
            let (f2, k2) = *r.pick(&ctx.pools.all);
            let s = format!("{}{}", e.text, m.fonts[f2].entries[k2].text);
            vs_model(env, &full(), &Cursor::new(0, 0, 0), st, &s, "zeros", false)?;
            wipe_all(env);
        }
        env.st.nontrivial(i as u64 | ctx.seed << 32);
    }
    Ok(())
}
fn c17_unlisted(env: &mut Env, idx: u64) -> Res {
    // characters near listed ones and truncated clusters
    let ctx = env.ctx;
    let m = &ctx.model;
    wipe_all(env);
    for i in idx as usize * 64..(idx as usize * 64 + 64).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let c: Vec<char> = m.fonts[f].entries[k].text.chars().collect();
        for d in [-1i32, 1] {
            if let Some(n) = char::from_u32((c[0] as i32 + d) as u32) {
                vs_model(env, &full(), &Cursor::new(0, 0, 0), STYLES[i % 3], &n.to_string(), "zeros", false)?;
                wipe(env, 0, 64);
            }
        }
        for n in 1..c.len() {
            let s: String = c[..n].iter().collect();
            vs_model(env, &full(), &Cursor::new(0, 0, 0), STYLES[i % 3], &s, "zeros", false)?;
            wipe(env, 0, 64);
        }
    }
    Ok(())
}
pub fn c17(ctx: &Ctx) -> Check {
    let n = ctx.pools.all.len() as u64;
    Check {
        id: "C17",
        rule: "every cluster and alias of randomly made font configurations in every style at 34 alignments, alone and before another one; characters next to listed ones; non-trivial: distinct (configuration, cluster) pairs; observed: whole frame buffer against the sprite sheet cells",
        workloads: vec![
            Workload { name: "clusters", quick: (n + 15) / 16, thorough: (n + 15) / 16, exhaustive: true, run: c17_clusters },
            Workload { name: "unlisted", quick: (n + 63) / 64, thorough: (n + 63) / 64, exhaustive: true, run: c17_unlisted },
        ],
    }
}

// ---------------------------------------------------------------- C18: digests of one library's fonts
fn d_add(h: &mut u64, fb: &FrBuf, c: &Cursor, y0: usize, y1: usize) {
    for w in fb[y0 * WPL..y1.min(H) * WPL].iter() {
        *h = (*h ^ *w as u64).wrapping_mul(0x100000001b3);
        *h ^= *h >> 31;
    }
    for v in [c.pt.x, c.pt.y, c.line_height] {
        *h = (*h ^ v as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
}
fn c18_scalars(env: &mut Env, idx: u64) -> Res {
    let mut h = idx;
    env.a.fill(0);
    let mut s = String::new();
    for c in scalars(idx) {
        for st in STYLES {
            s.clear();
            s.push(c);
            let mut cur = Cursor::new(0, 0, 0);
            paint_str(&mut env.a, full(), &mut cur, st, &s);
            d_add(&mut h, &env.a, &cur, 0, 64);
            wipe(env, 0, 64);
            env.st.evaluations += 1;
        }
        env.st.nontrivial(c as u64);
    }
    env.st.digest = h;
    Ok(())
}
fn c18_clusters(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let mut h = idx;
    wipe_all(env);
    for i in idx as usize * 16..(idx as usize * 16 + 16).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let t = &ctx.model.fonts[f].entries[k].text;
        let c: Vec<char> = t.chars().collect();
        for st in STYLES {
            for n in 1..=c.len() {
                let s: String = c[..n].iter().collect();
                let mut cur = Cursor::new(5, 0, 0);
                paint_str(&mut env.a, full(), &mut cur, st, &s);
                d_add(&mut h, &env.a, &cur, 0, 64);
                wipe(env, 0, 64);
                env.st.evaluations += 1;
            }
        }
        env.st.nontrivial(i as u64 | 1 << 40);
    }
    env.st.digest = h;
    Ok(())
}
fn c18_random(env: &mut Env, idx: u64) -> Res {
    let mut h = idx;
    let mut r = env.rng(181, idx);
    for _ in 0..20 {
        env.a.fill(0);
        let s = text(&mut r, &env.ctx.model, &env.ctx.pools, 30);
        let st = style(&mut r);
        let mut cur = Cursor::new(0, 0, 0);
        paint_str(&mut env.a, full(), &mut cur, st, &s);
        d_add(&mut h, &env.a, &cur, 0, H);
        env.st.evaluations += 1;
        env.st.nontrivial(fnv(181, s.as_bytes()));
    }
    env.st.digest = h;
    Ok(())
}
pub fn c18(ctx: &Ctx) -> Check {
    let n = (ctx.pools.all.len() as u64 + 15) / 16;
    Check {
        id: "C18",
        rule: "every scalar value and every cluster with all its truncations in every style, and random texts, painted by two libraries: one with the shipped, one with the regenerated fonts; non-trivial: distinct texts; observed: digests of frame buffer and cursor after each chunk of calls, compared between the two, and the bytes of two regenerations",
        workloads: vec![
            Workload { name: "scalars", quick: SCALARS / CHUNK, thorough: SCALARS / CHUNK, exhaustive: true, run: c18_scalars },
            Workload { name: "clusters", quick: n, thorough: n, exhaustive: true, run: c18_clusters },
            Workload { name: "random", quick: 6_000, thorough: 240_000, exhaustive: false, run: c18_random },
        ],
    }
}
