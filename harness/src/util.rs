//! Oracles shared by several checks.
use crate::ctx::*;
use crate::model::*;
use blitstr::{paint_str, ClipRect, Cursor, FrBuf, GlyphStyle, Pt};

pub fn rect(x0: usize, y0: usize, x1: usize, y1: usize) -> ClipRect {
    ClipRect { min: Pt { x: x0, y: y0 }, max: Pt { x: x1, y: y1 } }
}
pub fn full() -> ClipRect {
    rect(0, 0, W, H)
}

/// Is the library's result for this call exactly what comparing only hashes explains (known finding
/// about hash collisions), and does the text really contain such a collision?
pub fn collision_explains(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str) -> bool {
    let m = &env.ctx.model;
    if !m.collides(st, s) {
        return false;
    }
    let mut got = Box::new([0u32; blitstr::FRAME_BUF_SIZE]);
    let mut want = got.clone();
    let mut c = *cur;
    paint_str(&mut got, *clip, &mut c, st, s);
    if Model::valid_clip(clip) {
        let mut mc = to_mcur(cur);
        m.paint(&mut want, clip, &mut mc, st, s, Match::Hashed);
        if !cur_matches(&c, &mc) {
            return false;
        }
    }
    let r = same(&got, &want);
    if r {
        env.st.add("discarded: reproduces the hash collision finding of C05", 1);
    }
    r
}

/// Paint with library (into env.a) and model (into env.b); both hold the same background on entry.
/// On success both buffers hold the same content again.
pub fn vs_model(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str, bg: &str, want_cursor: bool) -> Res {
    env.st.evaluations += 1;
    let mut c = *cur;
    paint_str(&mut env.a, *clip, &mut c, st, s);
    let mut mc = to_mcur(cur);
    env.ctx.model.paint(&mut env.b, clip, &mut mc, st, s, Match::Exact);
    let ok = same(&env.a, &env.b);
    let cok = !want_cursor || cur_matches(&c, &mc);
    if ok && cok {
        return Ok(());
    }
    let d = show_diff(&env.a, &env.b);
    let cd = if cok { String::new() } else { format!("; cursor got {} want ({},{},lh {})", show_cur(&c), mc.x, mc.y, mc.lh) };
    if collision_explains(env, clip, cur, st, s) {
        let a: FrBuf = *env.a;
        env.b.copy_from_slice(&a);
        return Ok(());
    }
    viol(
        format!("result differs from the reference model: {}{}", d, cd),
        show_call(clip, cur, st, s, bg),
    )
}

/// Zero the rows y0..y1 of both env.a and env.b
pub fn wipe(env: &mut Env, y0: usize, y1: usize) {
    let (a, b) = (y0.min(H) * WPL, y1.min(H) * WPL);
    if a < b {
        env.a[a..b].fill(0);
        env.b[a..b].fill(0);
    }
}
pub fn wipe_all(env: &mut Env) {
    env.a.fill(0);
    env.b.fill(0);
}

/// All clusters: global number -> (font, entry)
pub fn style_for(m: &Model, font: usize, n: usize) -> GlyphStyle {
    for (i, f) in m.latin.iter().enumerate() {
        if *f == font {
            return STYLES[i];
        }
    }
    STYLES[n % 3]
}

/// Scalar values in chunks
pub const SCALARS: u64 = 0x110000;
pub const CHUNK: u64 = 1024;
pub fn scalars(idx: u64) -> impl Iterator<Item = char> {
    let lo = (idx * CHUNK) as u32;
    (lo..lo + CHUNK as u32).filter_map(char::from_u32)
}

/// One token of a text painted in a single call: what it changed, found by painting the text up to it and
/// including it, each in one call over zeros.
pub struct Step<'a> {
    pub n: usize,
    pub tok: &'a Tok,
    pub before: Cursor,
    pub after: Cursor,
    /// pixels that differ between the two prefixes
    pub diff: &'a FrBuf,
    /// pixels of the shorter prefix
    pub old: &'a FrBuf,
}
/// Calls f for each token. env.a, env.b, env.c are overwritten (and zero afterwards).
pub fn steps(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str, f: &mut dyn FnMut(&Step) -> Result<(), String>) -> Res {
    let toks = env.ctx.model.tokens(st, s, Match::Exact);
    env.a.fill(0);
    let mut before = *cur;
    let mut res = Ok(());
    for (n, t) in toks.iter().enumerate() {
        let end = t.range().1;
        env.b.fill(0);
        let mut c = *cur;
        paint_str(&mut env.b, *clip, &mut c, st, &s[..end]);
        env.st.evaluations += 1;
        for i in 0..blitstr::FRAME_BUF_SIZE {
            env.c[i] = env.a[i] ^ env.b[i];
        }
        let st1 = Step { n, tok: t, before, after: c, diff: &env.c, old: &env.a };
        if let Err(m) = f(&st1) {
            res = Err(Viol { msg: format!("{} (token {} of the text, ending at byte {})", m, n, end), case: show_call(clip, cur, st, s, "zeros") });
            break;
        }
        std::mem::swap(&mut env.a, &mut env.b);
        before = c;
    }
    if res.is_err() && env.ctx.model.collides(st, s) {
        env.st.add("skipped: text with hash collision", 1);
        res = Ok(());
    }
    env.a.fill(0);
    env.b.fill(0);
    env.c.fill(0);
    res
}
