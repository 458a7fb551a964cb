//! C01 - C04
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use blitstr::*;

// ---------------------------------------------------------------- C01
const TOP: usize = usize::MAX;
pub const XS: &[usize] = &[
    0, 1, 6, 30, 31, 32, 33, 63, 64, 65, 287, 288, 319, 320, 321, 330, 334, 335, 336, 337, 351, 352, 353, 400, 512, 535, 536, 537,
    568, (TOP >> 1) - 1, TOP >> 1, (TOP >> 1) + 1, u32::MAX as usize - 1, u32::MAX as usize, TOP / 11, TOP / 11 + 1, TOP - 33, TOP - 32,
    TOP - 3, TOP - 1, TOP,
];
const TEXTS: &[&str] = &[
    "", "a", "\n", "\n\n\n", "W", " ", "\u{FFFD}", "\u{10FFFF}", "\u{0}", "\u{1F638}", "\u{9D5D}", "ab\ncd", "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}\u{200D}\u{1F466}",
    "\u{1F3F4}\u{E0067}\u{E0062}\u{E0065}\u{E006E}\u{E0067}\u{E007F}", "q\u{E000}q", "a\u{308}\u{308}", "The quick brown fox jumps over the lazy dog, twice.\n\u{9D5D}\u{9D5D}\u{1F638}x",
    "\u{200D}\u{FE0F}", "jjjjjjjj\u{1F638}\nggg",
];

fn clear_cross(env: &mut Env, idx: u64) -> Res {
    let n = XS.len() as u64;
    let (x0, x1) = (XS[(idx / n) as usize], XS[(idx % n) as usize]);
    for &y0 in XS {
        for &y1 in XS {
            clear_region(&mut env.a, rect(x0, y0, x1, y1));
        }
    }
    env.st.evaluations += n * n;
    env.st.add("clear calls with extreme rectangles", n * n);
    env.st.nontrivial(idx);
    Ok(())
}
fn cursor_cross(env: &mut Env, idx: u64) -> Res {
    // every special cursor position in a set of usable and unusable rectangles
    let n = XS.len() as u64;
    let (x, y) = (XS[(idx / n) as usize], XS[(idx % n) as usize]);
    let clips = [full(), ClipRect::padded_screen(), rect(304, 0, 336, 536), rect(0, 500, 1, 536), rect(100, 100, 110, 101), rect(0, 0, 337, 536), rect(32, 0, 64, 536), rect(335, 535, 336, 536), rect(0, TOP, 336, 536), rect(0, 536, 336, 0)];
    let mut k = 0;
    for clip in &clips {
        for lh in [0, 24, 31, 1000, TOP >> 1, TOP - 1, TOP] {
            for s in TEXTS {
                let mut c = Cursor::new(x, y, lh);
                paint_str(&mut env.a, *clip, &mut c, STYLES[k % 3], s);
                k += 1;
            }
        }
    }
    env.st.evaluations += k as u64;
    env.st.nontrivial(idx);
    env.st.add("paint calls with extreme cursors", k as u64);
    Ok(())
}
fn rect_cross(env: &mut Env, idx: u64) -> Res {
    let n = XS.len() as u64;
    let (x0, x1) = (XS[(idx / n % n) as usize], XS[(idx % n) as usize]);
    let mut r = env.rng(13, idx);
    for &y0 in XS {
        for &y1 in XS {
            let clip = rect(x0, y0, x1, y1);
            let cur = any_cursor(&mut r, &clip);
            let mut c = cur;
            paint_str(&mut env.a, clip, &mut c, style(&mut r), *r.pick(TEXTS));
        }
    }
    env.st.evaluations += n * n;
    env.st.nontrivial(idx);
    env.st.add("paint calls with extreme rectangles", n * n);
    Ok(())
}
fn all_scalars(env: &mut Env, idx: u64) -> Res {
    let mut buf = String::new();
    for c in scalars(idx) {
        for st in STYLES {
            buf.clear();
            buf.push(c);
            let mut cur = Cursor::new(300, 510, 0);
            paint_str(&mut env.a, full(), &mut cur, st, &buf);
            buf.push(c);
            buf.push('\u{FE0F}');
            let mut cur = Cursor::new(0, 0, 0);
            paint_str(&mut env.a, rect(0, 0, 20, 20), &mut cur, st, &buf);
            env.st.evaluations += 2;
        }
        env.st.nontrivial(c as u64);
    }
    Ok(())
}
fn c01_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(11, idx);
    fill_fb(&mut r, &mut env.a);
    for i in 0..50 {
        let s = text(&mut r, &env.ctx.model, &env.ctx.pools, 20);
        let clip = any_rect(&mut r);
        let cur = any_cursor(&mut r, &clip);
        let st = style(&mut r);
        let mut c = cur;
        paint_str(&mut env.a, clip, &mut c, st, &s);
        // and once more from wherever that left the cursor
        paint_str(&mut env.a, clip, &mut c, st, &s);
        clear_region(&mut env.a, any_rect(&mut r));
        env.st.evaluations += 3;
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "random"));
        }
        if !s.is_empty() {
            env.st.nontrivial(key(&clip, &cur, st, &s));
        }
        if Model::valid_clip(&clip) {
            env.st.add("paint calls with usable rectangles", 2);
        } else {
            env.st.add("paint calls with unusable rectangles", 2);
        }
    }
    Ok(())
}
fn c01_clusters(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let mut r = env.rng(12, idx);
    for i in idx as usize * 64..(idx as usize * 64 + 64).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let s = &ctx.model.fonts[f].entries[k].text;
        for st in STYLES {
            for _ in 0..4 {
                let clip = on_screen(&mut r);
                let mut c = any_cursor(&mut r, &clip);
                paint_str(&mut env.a, clip, &mut c, st, s);
                env.st.evaluations += 1;
            }
        }
        env.st.nontrivial(i as u64);
    }
    Ok(())
}
fn c01_long(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(14, idx);
    let mut s = String::new();
    let want = [70_000, 300_000, 1_100_000][idx as usize % 3];
    let kind = idx / 3;
    while s.len() < want {
        match kind % 5 {
            0 => piece(&mut r, &env.ctx.model, &env.ctx.pools, &mut s),
            1 => s.push('\n'),
            2 => s.push('\u{10FFFF}'),
            3 => s.push_str("\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}"),
            _ => s.push('a'),
        }
    }
    for clip in [full(), rect(100, 100, 130, 200), rect(0, 0, 400, 400)] {
        let mut c = Cursor::from_top_left_of(clip);
        paint_str(&mut env.a, clip, &mut c, STYLES[idx as usize % 3], &s);
        env.st.evaluations += 1;
        env.st.nontrivial(key(&clip, &c, GlyphStyle::Small, "long") ^ idx);
    }
    env.st.add("bytes of long texts painted", 3 * s.len() as u64);
    Ok(())
}
fn c01_misc(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(15, idx);
    for _ in 0..200 {
        let v: Vec<usize> = (0..4).map(|_| if r.chance(1, 2) { extreme(&mut r) } else { *r.pick(XS) }).collect();
        let c = ClipRect::new(v[0], v[1], v[2], v[3]);
        let _ = Cursor::from_top_left_of(c);
        let _ = Cursor::new(v[0], v[1], v[2]);
        let _ = Pt::new(v[0], v[1]);
        let g = GlyphStyle::from(v[3]);
        let _: usize = g.into();
        let _ = glyph_to_height_hint(g);
        let _ = format!("{:?} {:?}", c, g);
        clear_region(&mut env.a, c);
        env.st.evaluations += 7;
        env.st.nontrivial(fnv(v[0] as u64 ^ (v[1] as u64).rotate_left(21) ^ (v[2] as u64).rotate_left(42), &[v[3] as u8]));
    }
    fill_fb(&mut r, &mut env.a);
    demo::sample_text(&mut env.a);
    demo::goose_poem(&mut env.a);
    demo::short_greeting(&mut env.a);
    env.st.evaluations += 3;
    Ok(())
}
pub fn c01(_ctx: &Ctx) -> Check {
    let nx = (XS.len() * XS.len()) as u64;
    Check {
        id: "C01",
        rule: "cases: cross products of extreme coordinates, every Unicode scalar value, every listed cluster, random texts/rectangles/cursors, long texts; non-trivial: a call on a non-empty text or a rectangle with at least one special or random coordinate; observed: normal return of every call with overflow, shift, bounds and debug assertions monitored",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<1> },
            Workload { name: "clear_cross", quick: nx, thorough: nx, exhaustive: true, run: clear_cross },
            Workload { name: "cursor_cross", quick: nx, thorough: nx, exhaustive: true, run: cursor_cross },
            Workload { name: "rect_cross", quick: nx, thorough: nx * 4, exhaustive: false, run: rect_cross },
            Workload { name: "all_scalars", quick: SCALARS / CHUNK, thorough: SCALARS / CHUNK, exhaustive: true, run: all_scalars },
            Workload { name: "random", quick: 60_000, thorough: 4_800_000, exhaustive: false, run: c01_random },
            Workload { name: "clusters", quick: 300, thorough: 300, exhaustive: false, run: c01_clusters },
            Workload { name: "long", quick: 15, thorough: 30, exhaustive: false, run: c01_long },
            Workload { name: "misc", quick: 400, thorough: 8000, exhaustive: false, run: c01_misc },
        ],
    }
}

// ---------------------------------------------------------------- C02
/// env.a and env.b hold the same content on entry and on success on return
pub fn contained(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str, bg: &str) -> Res {
    env.st.evaluations += 1;
    let mut c = *cur;
    paint_str(&mut env.a, *clip, &mut c, st, s);
    if same(&env.a, &env.b) {
        return Ok(());
    }
    if clip.min.x >= clip.max.x || clip.min.y >= clip.max.y || clip.max.x > W || clip.max.y > H {
        return viol(
            format!("painted in an unusable clip rectangle: {}", show_diff(&env.a, &env.b)),
            show_call(clip, cur, st, s, bg),
        );
    }
    if let Some((x, y)) = diff_outside(&env.a, &env.b, clip) {
        return viol(
            format!("pixel ({},{}) outside of the clip rectangle changed", x, y),
            show_call(clip, cur, st, s, bg),
        );
    }
    env.st.add("calls that changed pixels, all of them inside", 1);
    env.st.nontrivial(key(clip, cur, st, s));
    let b = &*env.b;
    env.a.copy_from_slice(b);
    Ok(())
}
fn setup_bg(env: &mut Env, r: &mut crate::rng::Rng) {
    fill_fb(r, &mut env.a);
    let a = &*env.a;
    env.b.copy_from_slice(a);
}
const WIDE: &[&str] = &["W", "@W\u{4E00}", "\u{1F638}\u{1F638}", "\u{9D5D}", "ijl.\u{FFFD}", "\u{1F5FF}M\n\u{767D}\u{1F468}", "\u{10FFFF}"];

fn c02_x(env: &mut Env, idx: u64) -> Res {
    let x0 = idx as usize;
    let mut r = env.rng(21, idx);
    setup_bg(env, &mut r);
    let rounds = if env.ctx.thorough { 40 } else { 8 };
    for x1 in x0 + 1..=W {
        for _ in 0..rounds {
            let y0 = r.usz(500);
            let clip = rect(x0, y0, x1, (y0 + r.range(1, 60)).min(H));
            let cx = match r.below(4) {
                0 => x0,
                1 => x1.saturating_sub(r.usz(40)),
                2 => x0.saturating_sub(r.usz(40)),
                _ => x0 + r.usz(x1 - x0 + 4),
            };
            let cur = Cursor::new(cx, (y0 + 10).saturating_sub(r.usz(40)), 0);
            contained(env, &clip, &cur, style(&mut r), *r.pick(WIDE), "random")?;
        }
    }
    Ok(())
}
fn c02_y(env: &mut Env, idx: u64) -> Res {
    let y0 = idx as usize;
    let mut r = env.rng(22, idx);
    setup_bg(env, &mut r);
    let rounds = if env.ctx.thorough { 20 } else { 4 };
    for y1 in 0..=H {
        for _ in 0..rounds {
            let clip = rect(r.usz(40), y0, W - r.usz(40), y1);
            let base = if r.chance(1, 2) { y0 } else { y1 };
            let cur = Cursor::new(clip.min.x + r.usz(30), (base + 8).saturating_sub(r.usz(44)), 0);
            contained(env, &clip, &cur, style(&mut r), *r.pick(WIDE), "random")?;
        }
    }
    Ok(())
}
fn c02_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(23, idx);
    setup_bg(env, &mut r);
    for i in 0..40 {
        let s = text(&mut r, &env.ctx.model, &env.ctx.pools, 14);
        let clip = if r.chance(2, 3) { on_screen(&mut r) } else { any_rect(&mut r) };
        let cur = if r.chance(3, 4) { near_cursor(&mut r, &clip) } else { any_cursor(&mut r, &clip) };
        let st = style(&mut r);
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "random"));
        }
        contained(env, &clip, &cur, st, &s, "random")?;
    }
    Ok(())
}
fn c02_unusable(env: &mut Env, idx: u64) -> Res {
    // rectangles that are empty, inverted or reach beyond the screen, with cursors and texts that
    // would be visible in a usable one
    let mut r = env.rng(24, idx);
    setup_bg(env, &mut r);
    for _ in 0..40 {
        let mut clip = on_screen(&mut r);
        let cur = near_cursor(&mut r, &clip);
        match r.below(8) {
            0 => clip.max.x = W + 1 + r.usz(20),
            1 => clip.max.y = H + 1 + r.usz(40),
            2 => clip.max.x = clip.min.x,
            3 => clip.max.y = clip.min.y,
            4 => std::mem::swap(&mut clip.min.x, &mut clip.max.x),
            5 => std::mem::swap(&mut clip.min.y, &mut clip.max.y),
            6 => clip.max.x = W + extreme(&mut r).min(usize::MAX - W).max(1),
            _ => clip.max.y = H + extreme(&mut r).min(usize::MAX - H).max(1),
        }
        let s = text(&mut r, &env.ctx.model, &env.ctx.pools, 8);
        let st = style(&mut r);
        env.st.add("calls with unusable rectangles, no pixel changed", 1);
        contained(env, &clip, &cur, st, &s, "random")?;
    }
    Ok(())
}
fn c02_clusters(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let mut r = env.rng(25, idx);
    setup_bg(env, &mut r);
    let rounds = if ctx.thorough { 200 } else { 24 };
    for i in idx as usize * 64..(idx as usize * 64 + 64).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let e = &ctx.model.fonts[f].entries[k];
        let st = style_for(&ctx.model, f, i);
        for _ in 0..rounds {
            // edges that cut the glyph
            let (x, y) = (r.usz(W - 40), r.usz(H - 40));
            let cut = |r: &mut crate::rng::Rng, a: usize| a + r.usz(38);
            let (xa, ya) = (cut(&mut r, x), cut(&mut r, y));
            let clip = match r.below(4) {
                0 => rect(0, ya, W, H),
                1 => rect(0, 0, W, ya + 1),
                2 => rect(x, y, xa + 1, H),
                _ => rect(x.min(xa), y.min(ya), xa + 1, ya + 1),
            };
            contained(env, &clip, &Cursor::new(x, y, 0), st, &e.text, "random")?;
        }
    }
    Ok(())
}
pub fn c02(ctx: &Ctx) -> Check {
    let chunks = (ctx.pools.all.len() as u64 + 63) / 64;
    Check {
        id: "C02",
        rule: "every pair of left/right edges, every pair of top/bottom edges (also inverted), every cluster with an edge through it, random texts/rectangles/cursors/styles over random frame buffers; non-trivial: the call changed at least one pixel; observed: every pixel and padding bit of the frame buffer before and after each call",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<2> },
            Workload { name: "x_pairs", quick: W as u64, thorough: W as u64, exhaustive: true, run: c02_x },
            Workload { name: "y_pairs", quick: H as u64 + 1, thorough: H as u64 + 1, exhaustive: true, run: c02_y },
            Workload { name: "clusters", quick: chunks, thorough: chunks, exhaustive: false, run: c02_clusters },
            Workload { name: "random", quick: 100_000, thorough: 6_000_000, exhaustive: false, run: c02_random },
            Workload { name: "unusable", quick: 45_000, thorough: 240_000, exhaustive: false, run: c02_unusable },
        ],
    }
}

// ---------------------------------------------------------------- C03
pub fn cleared(env: &mut Env, c: &ClipRect) -> Res {
    env.st.evaluations += 1;
    clear_region(&mut env.a, *c);
    if c.max.x <= W && c.max.y <= H && c.min.x < c.max.x && c.min.y < c.max.y {
        for y in c.min.y..c.max.y {
            for w in 0..WPL {
                env.b[y * WPL + w] |= colmask(w, c.min.x, c.max.x);
            }
        }
        env.st.add("rectangles on the screen", 1);
    } else {
        env.st.add("unusable rectangles", 1);
    }
    env.st.nontrivial(key(c, &Cursor::new(0, 0, 0), GlyphStyle::Small, ""));
    if !same(&env.a, &env.b) {
        return viol(show_diff(&env.a, &env.b), format!("clear_region(fb = random, {})", show_rect(c)));
    }
    Ok(())
}
fn dirty(r: &mut crate::rng::Rng, env: &mut Env, y0: usize, y1: usize) {
    let (y0, y1) = (y0.min(H), y1.min(H));
    let (i, j) = (y0 * WPL, y1.max(y0) * WPL);
    fill_words(r, &mut env.a[i..j]);
    env.b[i..j].copy_from_slice(&env.a[i..j]);
}
fn c03_x(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(31, idx);
    setup_bg(env, &mut r);
    let rounds = if env.ctx.thorough { 40 } else { 10 };
    for x1 in 0..=W + 20 {
        for _ in 0..rounds {
            let y0 = r.usz(H - 6);
            let clip = rect(idx as usize, y0, x1, y0 + r.range(1, 5));
            cleared(env, &clip)?;
            dirty(&mut r, env, clip.min.y, clip.max.y);
        }
    }
    Ok(())
}
fn c03_y(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(32, idx);
    setup_bg(env, &mut r);
    for y1 in 0..=H + 3 {
        let x0 = r.usz(W);
        let clip = rect(x0, idx as usize, x0 + 1 + r.usz(W - x0), y1);
        cleared(env, &clip)?;
        dirty(&mut r, env, clip.min.y, clip.max.y);
    }
    Ok(())
}
fn c03_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(33, idx);
    for i in 0..20 {
        fill_fb(&mut r, &mut env.a);
        let a = &*env.a;
        env.b.copy_from_slice(a);
        let clip = any_rect(&mut r);
        if i == 0 {
            env.st.sample(|| format!("clear_region(fb = random, {})", show_rect(&clip)));
        }
        cleared(env, &clip)?;
        // clearing twice, and clearing an overlapping rectangle, without new noise
        cleared(env, &clip)?;
        cleared(env, &any_rect(&mut r))?;
    }
    Ok(())
}
fn c03_extreme(env: &mut Env, idx: u64) -> Res {
    let n = XS.len() as u64;
    let mut r = env.rng(34, idx);
    setup_bg(env, &mut r);
    for &y0 in XS {
        for &y1 in XS {
            let clip = rect(XS[(idx / n) as usize], y0, XS[(idx % n) as usize], y1);
            cleared(env, &clip)?;
            if y0 < H && y1 <= H && r.chance(1, 8) {
                dirty(&mut r, env, y0, y1);
            }
        }
    }
    Ok(())
}
pub fn c03(_ctx: &Ctx) -> Check {
    let nx = (XS.len() * XS.len()) as u64;
    Check {
        id: "C03",
        rule: "every pair of left/right edges 0..=356, every pair of top/bottom edges 0..=539, extreme cross product, random rectangles, over random frame buffers; non-trivial: distinct rectangles; observed: every bit of the frame buffer against a per-column mask",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<3> },
            Workload { name: "x_pairs", quick: W as u64 + 2, thorough: W as u64 + 20, exhaustive: true, run: c03_x },
            Workload { name: "y_pairs", quick: H as u64 + 2, thorough: H as u64 + 4, exhaustive: true, run: c03_y },
            Workload { name: "extreme_cross", quick: nx, thorough: nx, exhaustive: true, run: c03_extreme },
            Workload { name: "random", quick: 60_000, thorough: 4_800_000, exhaustive: false, run: c03_random },
        ],
    }
}

// ---------------------------------------------------------------- C04
fn c04_columns(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(41, idx);
    wipe_all(env);
    let chunk = idx as usize % ((ctx.pools.all.len() + 15) / 16);
    for i in chunk * 16..(chunk * 16 + 16).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let e = &m.fonts[f].entries[k];
        let latin = m.latin.contains(&f);
        for st in STYLES {
            if latin && m.latin_font(st) != f {
                continue;
            }
            let xmax = W - 4 - e.glyph.w; // 1 + w + 2 < 336 - x
            let y = r.usz(H - 40);
            for x in 0..=xmax {
                vs_model(env, &full(), &Cursor::new(x, y, 0), st, &e.text, "zeros", false)?;
                wipe(env, y, y + 40);
            }
            env.st.nontrivial((i * 4 + st as usize) as u64);
        }
        if i % 64 == 0 {
            env.st.sample(|| format!("every column for {} in font {}", show_text(&e.text), m.fonts[f].name));
        }
    }
    Ok(())
}
fn c04_rows(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(42, idx);
    wipe_all(env);
    let (f, k) = if (idx as usize) < ctx.pools.widths.len() { ctx.pools.widths[idx as usize] } else { *r.pick(&ctx.pools.all) };
    let e = &m.fonts[f].entries[k];
    let st = style_for(m, f, idx as usize);
    for y in 0..H - e.glyph.yoff - e.glyph.h + 1 {
        for _ in 0..3 {
            let x = r.usz(W - 3 - e.glyph.w);
            vs_model(env, &full(), &Cursor::new(x, y, 0), st, &e.text, "zeros", false)?;
            wipe(env, y, y + 40);
            env.st.nontrivial(((f * 100_000 + k) * 1000 + y) as u64);
        }
    }
    Ok(())
}
/// The pixels of a glyph of which the top left corner of the cell's trimmed columns is at (x, y), inside clip
fn draw(fb: &mut FrBuf, clip: &ClipRect, g: &Glyph, x: usize, y: usize) {
    for (r, bits) in g.rows.iter().enumerate() {
        let py = y + g.yoff + r;
        for i in 0..g.w {
            let px = x + i;
            if bits >> i & 1 == 1 && py >= clip.min.y && py < clip.max.y && px >= clip.min.x && px < clip.max.x {
                fb[py * WPL + px / 32] ^= 1 << (px % 32);
            }
        }
    }
}
/// Each glyph of a text painted in one call, at the cursor that the text before it leaves
pub fn c04_text(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut want = Box::new([0u32; FRAME_BUF_SIZE]);
    let mut glyphs = 0;
    steps(env, clip, cur, st, s, &mut |p| {
        let (f, k) = match *p.tok {
            Tok::Newline(_) => {
                return if p.diff.iter().any(|w| *w != 0) { Err("a newline paints pixels".into()) } else { Ok(()) };
            }
            Tok::Glyph(f, k, _, _) | Tok::Unknown(f, k, _, _) => (f, k),
        };
        let g = m.glyph(f, k);
        let (x, y) = if p.after.pt.y != p.before.pt.y { (clip.min.x, p.after.pt.y) } else { (p.before.pt.x.max(clip.min.x), p.before.pt.y) };
        if y > 2 * H || x > 2 * W {
            return Ok(());
        }
        want.fill(0);
        draw(&mut want, clip, g, x + 1, y);
        if want[..] != p.diff[..] {
            return Err(format!("glyph of {} at cursor ({},{}): {}", show_text(&m.fonts[f].entries[k].text), x, y, show_diff(p.diff, &want)));
        }
        glyphs += 1;
        Ok(())
    })?;
    env.st.add("glyphs within texts", glyphs);
    env.st.nontrivial(key(clip, cur, st, s));
    Ok(())
}
fn c04_texts(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(43, idx);
    for i in 0..4 {
        let st = style(&mut r);
        let s = if r.chance(1, 3) { listed_text(&mut r, m, &ctx.pools, st, 24) } else { text(&mut r, m, &ctx.pools, 14) };
        if s.len() > 300 {
            continue;
        }
        let clip = if r.chance(1, 3) { full() } else { on_screen(&mut r) };
        let cur = near_cursor(&mut r, &clip);
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "zeros"));
        }
        c04_text(env, &clip, &cur, st, &s)?;
    }
    Ok(())
}
/// One glyph in any clip rectangle, over any background, at any place in it
fn c04_places(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(44, idx);
    setup_bg(env, &mut r);
    for _ in 0..40 {
        let (f, k) = *r.pick(&ctx.pools.all);
        let e = &m.fonts[f].entries[k];
        let st = style_for(m, f, r.usz(3));
        let clip = on_screen(&mut r);
        let lh = near_cursor(&mut r, &clip).line_height;
        if clip.max.x - clip.min.x < e.glyph.w + 5 {
            continue;
        }
        let x = clip.min.x + r.usz(clip.max.x - clip.min.x - e.glyph.w - 3);
        let y = if r.chance(1, 4) { r.usz(H) } else { r.range(clip.min.y, clip.max.y) };
        env.st.nontrivial(key(&clip, &Cursor::new(x, y, lh), st, &e.text));
        vs_model(env, &clip, &Cursor::new(x, y, lh), st, &e.text, "random", false)?;
    }
    Ok(())
}
pub fn c04(ctx: &Ctx) -> Check {
    let chunks = (ctx.pools.all.len() as u64 + 15) / 16;
    let w = ctx.pools.widths.len() as u64;
    Check {
        id: "C04",
        rule: "every listed cluster and alias x every style that shows it x every screen column at which it does not wrap (at a random row), every row for one glyph of each width of each font; single glyphs in random clip rectangles over random contents; and every glyph of random texts painted in one call (difference between the text up to and including it); non-trivial: distinct (cluster, style) pairs, calls and texts; observed: the whole frame buffer against the sprite sheet cell",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<4> },
            Workload { name: "columns", quick: chunks, thorough: chunks * 4, exhaustive: true, run: c04_columns },
            Workload { name: "rows", quick: w + 20, thorough: w + 2000, exhaustive: false, run: c04_rows },
            Workload { name: "places", quick: 120_000, thorough: 6_000_000, exhaustive: false, run: c04_places },
            Workload { name: "texts", quick: 36_000, thorough: 1_800_000, exhaustive: false, run: c04_texts },
        ],
    }
}
