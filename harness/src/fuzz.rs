//! Calls decoded from bytes, for the coverage-guided workload.  The bytes are read so that small changes of
//! them are small changes of the call, and so that a number the library compares with can be put in verbatim.
use crate::checks::{a, b, c};
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use blitstr::*;

pub struct Fuzz {
    pub clip: ClipRect,
    pub cur: Cursor,
    pub st: GlyphStyle,
    pub text: String,
    pub bg: u8,
    pub extra: u8,
    pub raw: [usize; 7],
}

struct Rd<'a>(&'a [u8]);
impl Rd<'_> {
    fn u8(&mut self) -> u8 {
        match self.0.split_first() {
            Some((b, r)) => {
                self.0 = r;
                *b
            }
            None => 0,
        }
    }
    fn u16(&mut self) -> usize {
        self.u8() as usize | (self.u8() as usize) << 8
    }
}
/// Extreme numbers: a byte shifted to anywhere, or counted down from the top
fn wide(v: usize) -> usize {
    if v & 0x8000 != 0 {
        usize::MAX - (v & 0x3ff)
    } else {
        (v & 0xff) << (v >> 8 & 0x3f)
    }
}
/// As it is or wide, by a bit each
fn pull(v: usize, how: u8) -> usize {
    match how & 3 {
        2 if v < 0x10000 => wide(v),
        3 if v < 0x10000 => v << 16 | v >> 3,
        _ => v,
    }
}

pub fn decode(ctx: &Ctx, data: &[u8]) -> Fuzz {
    let (m, p) = (&ctx.model, &ctx.pools);
    let mut r = Rd(data);
    let h = r.u8();
    let st = STYLES[h as usize % 3];
    let bg = r.u8();
    let extra = r.u8();
    let v: Vec<usize> = (0..7)
        .map(|_| {
            let v = r.u16();
            match DICT.get() {
                Some(d) if v >> 9 == 0x77 && !d.nums.is_empty() => {
                    let from = if d.new_nums.is_empty() || v & 0x100 == 0 { &d.nums } else { &d.new_nums };
                    from[v as usize % 256 % from.len()] as usize
                }
                _ => v,
            }
        })
        .collect();
    let sorted = |a: usize, b: usize| if a <= b { (a, b) } else { (b, a) };
    let clip = match h >> 5 {
        0 => full(),
        1 => ClipRect::padded_screen(),
        2 => rect(v[0] % 600, v[1] % 600, v[2] % 600, v[3] % 600),
        3 => rect(wide(v[0]), wide(v[1]), wide(v[2]), wide(v[3])),
        _ => {
            let (x0, x1) = sorted(v[0] % (W + 1), v[2] % (W + 1));
            let (y0, y1) = sorted(v[1] % (H + 1), v[3] % (H + 1));
            let (x0, x1) = if x0 == x1 { (x0.min(W - 1), x0.min(W - 1) + 1) } else { (x0, x1) };
            let (y0, y1) = if y0 == y1 { (y0.min(H - 1), y0.min(H - 1) + 1) } else { (y0, y1) };
            rect(x0, y0, x1, y1)
        }
    };
    let cur = match h >> 3 & 3 {
        0 => Cursor::new(v[4] % 400, v[5] % 600, v[6] % 600),
        1 => Cursor::new(clip.min.x.wrapping_add(v[4] % 64), clip.min.y.wrapping_add(v[5] % 64), v[6] % 40),
        2 => Cursor::new(v[4] % 1024, v[5] % 1024, v[6]),
        _ => Cursor::new(wide(v[4]), wide(v[5]), wide(v[6])),
    };
    let mut text = String::new();
    let mut last = 0;
    let most = if extra == 255 { 3000 } else { 300 };
    while !r.0.is_empty() && text.len() < most {
        let at = text.len();
        let op = r.u8();
        match op {
            0..=0x7f => text.push(op as char),
            0x80..=0x9f => {
                let (f, k) = p.all[r.u16() % p.all.len()];
                text.push_str(&m.fonts[f].entries[k].text);
            }
            0xa0..=0xaf => {
                let k = r.u16() % p.emoji_multi.len();
                text.push_str(&m.fonts[m.emoji].entries[p.emoji_multi[k]].text);
            }
            0xb0..=0xbf => text.extend(char::from_u32(r.u16() as u32 | (r.u8() as u32) << 16)),
            0xc0..=0xcf => text.push(p.parts[r.u8() as usize % p.parts.len()]),
            0xd0..=0xd7 => text.push(p.edges[r.u16() % p.edges.len()]),
            0xd8..=0xdf => {
                if let Some(d) = DICT.get() {
                    if !d.strs.is_empty() {
                        text.push_str(&d.strs[r.u8() as usize % d.strs.len()]);
                    }
                }
            }
            0xe0..=0xef => {
                // the last piece again, many times
                let t = text[last..].to_string();
                let n = r.u16();
                for _ in 0..n {
                    if text.len() > most {
                        break;
                    }
                    text.push_str(&t);
                }
            }
            0xf0..=0xf7 => {
                let (f, k) = p.low_glyphs[r.u16() % p.low_glyphs.len()];
                text.push_str(&m.fonts[f].entries[k].text);
            }
            _ => {
                // everything once more
                if text.len() < most / 2 {
                    let t = text.clone();
                    text.push_str(&t);
                }
            }
        }
        if text.len() > at {
            last = at;
        }
    }
    let mut raw = [0; 7];
    raw.copy_from_slice(&v);
    Fuzz { clip, cur, st, text, bg, extra, raw }
}

/// Same background in a and b
fn background(env: &mut Env, bg: u8) {
    match bg {
        0 => env.a.fill(0),
        1 => env.a.fill(!0),
        _ => {
            let mut r = Rng::new(1, 77, bg as u64);
            fill_fb(&mut r, &mut env.a);
        }
    }
    let a = &*env.a;
    env.b.copy_from_slice(a);
}
/// A rectangle on the screen made of any
fn visible(c: &ClipRect) -> ClipRect {
    let (x0, y0) = (c.min.x % W, c.min.y % H);
    rect(x0, y0, x0 + 1 + c.max.x % (W - x0), y0 + 1 + c.max.y % (H - y0))
}
fn cut_short(s: &mut String, n: usize) {
    if s.len() > n {
        let mut n = n;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
}

pub fn run(check: &str, env: &mut Env, f: &mut Fuzz) -> Res {
    let usable = Model::valid_clip(&f.clip) && f.clip.min.y < f.clip.max.y;
    match check {
        "C01" => {
            background(env, f.bg);
            let mut c = f.cur;
            paint_str(&mut env.a, f.clip, &mut c, f.st, &f.text);
            clear_region(&mut env.a, f.clip);
            paint_str(&mut env.a, f.clip, &mut c, f.st, &f.text);
            env.st.evaluations += 3;
            Ok(())
        }
        "C02" => {
            background(env, f.bg);
            a::contained(env, &f.clip, &f.cur, f.st, &f.text, "random")
        }
        "C03" => {
            background(env, f.bg);
            a::cleared(env, &f.clip)?;
            a::cleared(env, &rect(f.cur.pt.x, f.cur.pt.y, f.clip.max.x, f.clip.max.y))
        }
        "C04" => {
            let clip = visible(&f.clip);
            cut_short(&mut f.text, 120);
            a::c04_text(env, &clip, &f.cur, f.st, &f.text)
        }
        "C05" => {
            wipe_all(env);
            b::reads_as(env, f.st, &f.text)
        }
        "C06" => {
            wipe_all(env);
            let clip = visible(&f.clip);
            let (sub, _) = b::substituted(&env.ctx.model, f.st, &f.text);
            b::as_substituted(env, &clip, &f.cur, f.st, &f.text, &sub, H)
        }
        "C07" => {
            background(env, f.bg);
            std::mem::swap(&mut env.a, &mut env.c);
            b::is_xor(env, &f.clip, &f.cur, f.st, &f.text)
        }
        "C08" => {
            wipe_all(env);
            let clip = visible(&f.clip);
            let lim = usize::MAX >> 14;
            f.cur.pt.y = f.cur.pt.y.min(lim);
            f.cur.line_height = f.cur.line_height.min(lim);
            vs_model(env, &clip, &f.cur, f.st, &f.text, "zeros", true)
        }
        "C09" => {
            background(env, f.bg);
            let bs = c::boundaries(&env.ctx.model, f.st, &f.text);
            let cuts = match f.extra {
                0..=63 if !bs.is_empty() => vec![bs[f.extra as usize % bs.len()]],
                64..=127 => bs.iter().copied().enumerate().filter(|(i, _)| (f.extra >> (i % 6)) & 1 == 1).map(|x| x.1).collect(),
                _ => bs,
            };
            let clip = if usable { f.clip } else { visible(&f.clip) };
            c::in_pieces(env, &clip, &f.cur, f.st, &f.text, &cuts, "random")
        }
        "C10" => {
            wipe_all(env);
            let clip = if usable { f.clip } else { visible(&f.clip) };
            c::masked(env, &clip, &f.cur, f.st, &f.text)
        }
        "C11" => {
            let v = visible(&f.clip);
            let x0 = v.min.x % (W - 36);
            let clip = rect(x0, v.min.y % 60, x0 + 36 + v.max.x % (W - 35 - x0), H);
            cut_short(&mut f.text, 120);
            c::c11_text(env, &clip, &Cursor::from_top_left_of(clip), f.st, &f.text)
        }
        "C20" => {
            let v = f.raw;
            let raw = [pull(v[0], f.bg), pull(v[1], f.bg >> 2), pull(v[2], f.bg >> 4), pull(v[3], f.bg >> 6)];
            let o = [pull(v[4], f.extra), pull(v[5], f.extra >> 2), pull(v[6], f.extra >> 4), raw[3] ^ (f.extra >> 7) as usize];
            c::c20_args(env, raw, o)?;
            c::c20_args(env, raw, [raw[0], raw[1], raw[2], o[3]])?;
            c::c20_style(env, raw[0])
        }
        "C21" => {
            wipe_all(env);
            let clip = if usable { f.clip } else { visible(&f.clip) };
            let ctx = env.ctx;
            let other = c::respelled(ctx, f.st, &f.text, f.extra);
            if other != f.text && c::comparable(&ctx.model, f.st, &f.text, &other) {
                c::same_paint(env, &clip, &f.cur, f.st, &f.text, f.st, &other)?;
            }
            if let Some(s) = c::style_free(&ctx.model, &f.text) {
                c::same_paint(env, &clip, &f.cur, STYLES[f.bg as usize % 3], &s, STYLES[(f.bg as usize + 1) % 3], &s)?;
            }
            Ok(())
        }
        "C23" => {
            wipe_all(env);
            let clip = visible(&f.clip);
            f.cur.pt.x %= 1 << 20;
            f.cur.pt.y %= 1 << 20;
            f.cur.line_height %= 1 << 20;
            let (dx, dy) = c::a_move(&clip, &f.cur, f.raw[0] ^ f.extra as usize, f.raw[1] ^ f.bg as usize);
            cut_short(&mut f.text, 400);
            c::moved(env, &clip, &f.cur, f.st, &f.text, dx, dy)?;
            c::clear_moved(env, &clip, dx, dy)
        }
        _ => panic!("no such fuzz target"),
    }
}

pub fn show(f: &Fuzz) -> String {
    show_call(&f.clip, &f.cur, f.st, &f.text, "random")
}

/// A small set of numbers, most of them literals of the library (those that are new to it first), with which
/// whole calls are made: what depends on several parameters having certain values at once shows here.
struct Palette(Vec<usize>);
impl Palette {
    fn new(r: &mut Rng) -> Palette {
        let n = r.range(2, 5);
        let d = DICT.get().filter(|d| !d.nums.is_empty());
        Palette(
            (0..n)
                .map(|_| match d {
                    Some(d) if !d.new_nums.is_empty() && r.chance(7, 8) => *r.pick(&d.new_nums) as usize,
                    Some(d) if r.chance(3, 4) => *r.pick(&d.nums) as usize,
                    _ => r.usz(600),
                })
                .collect(),
        )
    }
    /// One of the numbers, or next to one
    fn any(&self, r: &mut Rng) -> usize {
        let v = *r.pick(&self.0);
        match r.below(12) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => v.wrapping_add(r.usz(34)),
            3 => v.wrapping_sub(r.usz(34)),
            _ => v,
        }
    }
    fn or(&self, r: &mut Rng, den: u64, lim: usize, v: usize) -> usize {
        if r.chance(1, den) {
            let p = self.any(r);
            if p <= lim {
                return p;
            }
        }
        v
    }
}
pub fn focused(ctx: &Ctx, r: &mut Rng) -> Fuzz {
    let (m, pools) = (&ctx.model, &ctx.pools);
    let p = Palette::new(r);
    let st = style(r);
    let (dx0, dx1, dy0, dy1) = match r.below(4) {
        0 => (0, W, 0, H),
        1 => (6, W - 6, 6, H - 6),
        2 => (r.usz(W), r.usz(W + 1), 0, H),
        _ => (r.usz(W), r.usz(W + 1), r.usz(H), r.usz(H + 1)),
    };
    let (mut x0, mut x1) = (p.or(r, 2, W - 1, dx0), p.or(r, 3, W, dx1));
    let (mut y0, mut y1) = (p.or(r, 2, H - 1, dy0), p.or(r, 3, H, dy1));
    if x0 > x1 {
        std::mem::swap(&mut x0, &mut x1);
    }
    if y0 > y1 {
        std::mem::swap(&mut y0, &mut y1);
    }
    if x0 == x1 {
        (x0, x1) = if x0 < W { (x0, x0 + 1) } else { (x0 - 1, x0) };
    }
    if y0 == y1 {
        (y0, y1) = if y0 < H { (y0, y0 + 1) } else { (y0 - 1, y0) };
    }
    let clip = rect(x0, y0, x1, y1);
    let top = if r.chance(1, 8) { usize::MAX } else { 1200 };
    let x = match r.below(4) {
        0 => x0 + r.usz(40),
        1 => x1.saturating_sub(r.usz(48)),
        2 => x0 + r.usz(x1 - x0),
        _ => r.usz(W),
    };
    let y = match r.below(4) {
        0 => y0,
        1 => (y0 + r.usz(40)).saturating_sub(34),
        2 => y1.saturating_sub(r.usz(40)),
        _ => y0 + r.usz(y1 - y0),
    };
    let lh = *r.pick(&[0usize, 0, 0, 24, 30, 30, 32, 36]);
    let cur = Cursor::new(p.or(r, 2, top, x), p.or(r, 2, top, y), p.or(r, 3, top, lh));
    let mut text = String::new();
    for _ in 0..r.range(1, 5) {
        match r.below(16) {
            0..=2 => text.push('\n'),
            3 => text.extend(char::from_u32(p.any(r) as u32)),
            4 => piece(r, m, pools, &mut text),
            5 => {
                let d = DICT.get();
                let from = d.map(|d| if d.new_strs.is_empty() { &d.strs } else { &d.new_strs }).filter(|v| !v.is_empty());
                if let Some(v) = from {
                    text.push_str(r.pick(v));
                }
            }
            6..=11 => {
                // a glyph one of whose measures is one of the numbers, if there is one
                let mut t = "";
                for _ in 0..24 {
                    let f = *r.pick(&[m.emoji, m.hanzi, m.latin_font(st), m.latin_font(st)]);
                    let e = &m.fonts[f].entries[*r.pick(&pools.by_font[f])];
                    t = &e.text;
                    let g = &e.glyph;
                    if p.0.iter().any(|v| *v == g.w || *v == g.h || *v == g.yoff) {
                        break;
                    }
                }
                text.push_str(t);
            }
            _ => text.push_str(&listed_text(r, m, pools, st, 1)),
        }
    }
    if r.chance(1, 12) && !text.is_empty() {
        // so many times, or so long
        let n = p.any(r);
        if n <= 400 {
            let most = if r.chance(1, 2) { n * text.len() } else { n };
            let one = text.clone();
            while text.len() < most.min(2000) {
                text.push_str(&one);
            }
            cut_short(&mut text, most.min(2000));
        }
    }
    let mut raw = [0; 7];
    for v in raw.iter_mut() {
        *v = if r.chance(3, 4) { p.any(r) } else { r.usz(600) };
    }
    Fuzz { clip, cur, st, text, bg: if r.chance(1, 2) { r.usz(2) as u8 } else { r.u32() as u8 }, extra: r.u32() as u8 & 254, raw }
}
/// The workload of check number ID
pub fn focus<const ID: u64>(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(1000 + ID, idx);
    let check = format!("C{:02}", ID);
    for _ in 0..16 {
        let mut f = focused(env.ctx, &mut r);
        run(&check, env, &mut f)?;
    }
    Ok(())
}
