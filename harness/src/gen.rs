//! Workload generators: texts, clip rectangles, cursors, frame buffers.
use crate::model::*;
use crate::rng::Rng;
use blitstr::{ClipRect, Cursor, FrBuf, GlyphStyle, Pt};

/// Derived pools of clusters and characters
pub struct Pools {
    /// all clusters: (font, entry)
    pub all: Vec<(usize, usize)>,
    pub emoji_multi: Vec<usize>,
    /// first char -> emoji entries that start with it (only where there is more than one)
    pub families: Vec<Vec<usize>>,
    /// every char that occurs in any cluster of more than one code point
    pub parts: Vec<char>,
    /// chars near the edges of Unicode blocks, controls and other troublemakers
    pub edges: Vec<char>,
    /// one cluster per (font, glyph width)
    pub widths: Vec<(usize, usize)>,
    /// per font: entry numbers
    pub by_font: Vec<Vec<usize>>,
    /// listed ideographs and other singles
    pub low_glyphs: Vec<(usize, usize)>,
}

impl Pools {
    pub fn new(m: &Model) -> Pools {
        let mut all = vec![];
        let mut by_font = vec![];
        let mut widths = vec![];
        let mut low_glyphs = vec![];
        for (f, font) in m.fonts.iter().enumerate() {
            let mut seen = vec![];
            for (k, e) in font.entries.iter().enumerate() {
                all.push((f, k));
                if !seen.contains(&e.glyph.w) {
                    seen.push(e.glyph.w);
                    widths.push((f, k));
                }
                if e.glyph.yoff >= 14 {
                    low_glyphs.push((f, k));
                }
            }
            by_font.push((0..font.entries.len()).collect());
        }
        let em = &m.fonts[m.emoji];
        let mut emoji_multi = vec![];
        let mut fam: std::collections::BTreeMap<char, Vec<usize>> = Default::default();
        let mut parts = std::collections::BTreeSet::new();
        for (k, e) in em.entries.iter().enumerate() {
            let n = e.text.chars().count();
            if n > 1 {
                emoji_multi.push(k);
                parts.extend(e.text.chars());
            }
            fam.entry(e.text.chars().next().unwrap()).or_default().push(k);
        }
        for e in m.fonts[m.latin[1]].entries.iter() {
            if e.text.chars().count() > 1 {
                parts.extend(e.text.chars());
            }
        }
        let mut edges = vec![];
        for &(lo, hi) in blocks() {
            for c in [lo.wrapping_sub(1), lo, lo + 1, hi - 1, hi, hi + 1] {
                edges.extend(char::from_u32(c));
            }
        }
        for c in [
            0x0, 0x7, 0x8, 0x9, 0xb, 0xc, 0xd, 0x1b, 0x7f, 0x80, 0x85, 0x9f, 0xad, 0x300, 0x301, 0x303, 0x308, 0x30a, 0x327, 0x34f,
            0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2028, 0x2029, 0x202e, 0x2060, 0x20e3, 0xfe0e, 0xfe0f, 0xfeff, 0xfffc, 0xfffd,
            0xfffe, 0xffff, 0xd7ff, 0xe000, 0x1f1e6, 0x1f1ff, 0x1f3fb, 0x1f3ff, 0xe0001, 0xe0020, 0xe0067, 0xe007f, 0x10000,
            0x10fffd, 0x10ffff, 0x410, 0x5d0, 0x627, 0x915, 0xac00, 0x1100, 0x2640, 0x2642, 0x2764, 0x1f5e8,
        ] {
            edges.extend(char::from_u32(c));
        }
        edges.sort();
        edges.dedup();
        Pools {
            all,
            emoji_multi,
            families: fam.into_values().filter(|v| v.len() > 1).collect(),
            parts: parts.into_iter().collect(),
            edges,
            widths,
            by_font,
            low_glyphs,
        }
    }
}

/// A number from the dictionary or next to one, at most lim
pub fn dict_num(r: &mut Rng, lim: usize) -> Option<usize> {
    let d = DICT.get()?;
    if d.nums.is_empty() {
        return None;
    }
    for _ in 0..4 {
        // in 64 bits everywhere: 32-bit builds must generate the same cases
        let from = if !d.new_nums.is_empty() && r.chance(3, 4) { &d.new_nums } else { &d.nums };
        let v = *r.pick(from);
        let v = match r.below(8) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => v.wrapping_add(r.below(4)),
            3 => v.wrapping_sub(r.below(4)),
            4 => v.wrapping_mul(2),
            _ => v,
        };
        if v <= lim as u64 {
            return Some(v as usize);
        }
    }
    None
}
/// v, or now and then a number from the dictionary
fn or_dict(r: &mut Rng, v: usize, lim: usize) -> usize {
    let keen = DICT.get().is_some_and(|d| !d.new_nums.is_empty());
    if r.chance(1, if keen { 4 } else { 10 }) {
        dict_num(r, lim).unwrap_or(v)
    } else {
        v
    }
}

pub fn any_char(r: &mut Rng) -> char {
    if r.chance(1, 8) {
        if let Some(c) = dict_num(r, 0x10ffff).and_then(|v| char::from_u32(v as u32)) {
            return c;
        }
    }
    loop {
        let c = match r.below(6) {
            0 => r.below(0x80),
            1 => r.below(0x800),
            2 => r.below(0x10000),
            3 => 0x1f000 + r.below(0xc00),
            4 => 0x20000 + r.below(0x12000),
            _ => r.below(0x110000),
        };
        if let Some(c) = char::from_u32(c as u32) {
            return c;
        }
    }
}

fn cluster<'a>(r: &mut Rng, m: &'a Model, p: &Pools) -> &'a str {
    let (f, k) = match r.below(8) {
        0 | 1 => (m.emoji, *r.pick(&p.emoji_multi)),
        2 => (m.emoji, *r.pick(&p.by_font[m.emoji])),
        3 => {
            let fam: &Vec<usize> = r.pick(&p.families);
            (m.emoji, *r.pick(fam))
        }
        4 | 5 => (m.latin[1], *r.pick(&p.by_font[m.latin[1]])),
        6 => (m.hanzi, *r.pick(&p.by_font[m.hanzi])),
        _ => *r.pick(&p.low_glyphs),
    };
    &m.fonts[f].entries[k].text
}

/// One piece of text of a random kind
pub fn piece(r: &mut Rng, m: &Model, p: &Pools, out: &mut String) {
    if r.chance(1, if DICT.get().is_some_and(|d| !d.new_strs.is_empty()) { 16 } else { 64 }) {
        if let Some(d) = DICT.get() {
            if !d.strs.is_empty() {
                let from = if !d.new_strs.is_empty() && r.chance(3, 4) { &d.new_strs } else { &d.strs };
                out.push_str(r.pick(from));
                return;
            }
        }
    }
    match r.below(16) {
        0..=2 => {
            for _ in 0..r.range(1, 6) {
                out.push((32 + r.below(95)) as u8 as char);
            }
        }
        3 => out.push('\n'),
        4 => out.push(' '),
        5..=8 => out.push_str(cluster(r, m, p)),
        9 => {
            // a truncated cluster
            let c: Vec<char> = cluster(r, m, p).chars().collect();
            let n = r.range(1, c.len());
            out.extend(&c[..n]);
        }
        10 => {
            // a cluster with one code point dropped, replaced or inserted
            let mut c: Vec<char> = m.fonts[m.emoji].entries[*r.pick(&p.emoji_multi)].text.chars().collect();
            let i = r.usz(c.len());
            match r.below(3) {
                0 => {
                    c.remove(i);
                }
                1 => c[i] = *r.pick(&p.parts),
                _ => c.insert(i, *r.pick(&p.parts)),
            }
            out.extend(c);
        }
        11 => {
            out.push_str(cluster(r, m, p));
            out.push(*r.pick(&p.parts));
        }
        12 => out.push(*r.pick(&p.edges)),
        13 => out.push(any_char(r)),
        14 => {
            for _ in 0..r.range(1, 5) {
                let k = *r.pick(&p.by_font[m.hanzi]);
                out.push_str(&m.fonts[m.hanzi].entries[k].text);
            }
        }
        _ => {
            let (f, k) = *r.pick(&p.low_glyphs);
            out.push_str(&m.fonts[f].entries[k].text);
        }
    }
}

pub fn text(r: &mut Rng, m: &Model, p: &Pools, max_pieces: usize) -> String {
    let mut s = String::new();
    if r.chance(1, 96) {
        long_text(r, m, p, &mut s);
        return s;
    }
    let n = match r.below(4) {
        0 => r.usz(3),
        1 => r.usz(8),
        _ => r.usz(max_pieces + 1),
    };
    for _ in 0..n {
        piece(r, m, p, &mut s);
    }
    s
}

/// A text of a certain length in bytes, characters or pieces, which is now and then a number of the dictionary
fn long_text(r: &mut Rng, m: &Model, p: &Pools, s: &mut String) {
    let top = if r.chance(1, 40) { 70_000 } else if r.chance(1, 8) { 6000 } else { 700 };
    let n = if r.chance(1, 2) { None } else { dict_num(r, top) };
    let n = n.unwrap_or_else(|| if r.chance(1, 2) { (1usize << r.range(3, 16)).min(top) - r.usz(2) } else { r.usz(top) });
    let unit = r.below(4);
    let single: Option<String> = if r.chance(1, 2) {
        // the same few pieces again and again
        let mut t = String::new();
        for _ in 0..r.range(1, 3) {
            piece(r, m, p, &mut t);
        }
        Some(t)
    } else {
        None
    };
    let mut done = 0;
    while done < n && s.len() < 140_000 {
        let at = s.len();
        match &single {
            Some(t) if !t.is_empty() => s.push_str(t),
            _ => piece(r, m, p, s),
        }
        match unit {
            0 => done = s.len(),
            1 => done += s[at..].chars().count(),
            _ => done += 1,
        }
    }
    if unit < 2 {
        while s.len() > n && unit == 0 || unit == 1 && done > n {
            s.pop();
            done -= 1;
        }
        while unit == 0 && s.len() < n {
            s.push('a');
        }
    }
}

/// Text of listed clusters and newlines only
pub fn listed_text(r: &mut Rng, m: &Model, p: &Pools, st: GlyphStyle, max: usize) -> String {
    let mut s = String::new();
    let lat = m.latin_font(st);
    for _ in 0..r.usz(max + 1) {
        match r.below(10) {
            0 => s.push('\n'),
            1 => s.push(' '),
            2..=5 => s.push_str(&m.fonts[lat].entries[*r.pick(&p.by_font[lat])].text),
            6 => s.push_str(&m.fonts[m.hanzi].entries[*r.pick(&p.by_font[m.hanzi])].text),
            _ => s.push_str(&m.fonts[m.emoji].entries[*r.pick(&p.by_font[m.emoji])].text),
        }
    }
    s
}

pub fn style(r: &mut Rng) -> GlyphStyle {
    *r.pick(&STYLES)
}

fn rect(a: usize, b: usize, c: usize, d: usize) -> ClipRect {
    ClipRect { min: Pt { x: a, y: b }, max: Pt { x: c, y: d } }
}

/// A rectangle on the screen (min.x < max.x, min.y < max.y)
pub fn on_screen(r: &mut Rng) -> ClipRect {
    let (mut x0, mut x1) = match r.below(8) {
        0 => (0, W),
        1 => (6, W - 6),
        2 => {
            // narrower than most glyphs
            let w = r.range(1, 40);
            let x = r.range(0, W - w);
            (x, x + w)
        }
        3 => {
            // narrow at the right edge
            let w = r.range(1, 48);
            (W - w, W)
        }
        4 => {
            // word aligned edges
            let a = r.range(0, 9);
            let b = r.range(a + 1, 10);
            (a * 32, b * 32)
        }
        5 => {
            let a = r.range(0, 9);
            let b = r.range(a + 1, 10);
            ((a * 32 + 31 + r.usz(3)).saturating_sub(1).min(W - 1), (b * 32 + r.usz(3)).saturating_sub(1).max(1).min(W))
        }
        _ => {
            let (a, b) = (r.usz(W), r.range(1, W));
            (or_dict(r, a, W - 1), or_dict(r, b, W).max(1))
        }
    };
    if x0 > x1 {
        std::mem::swap(&mut x0, &mut x1);
    }
    if x0 == x1 {
        if x1 < W {
            x1 += 1
        } else {
            x0 -= 1
        }
    }
    let (mut y0, mut y1) = match r.below(6) {
        0 => (0, H),
        1 => (6, H - 6),
        2 => {
            let h = r.range(1, 40);
            let y = r.range(0, H - h);
            (y, y + h)
        }
        3 => {
            let h = r.range(1, 70);
            (H - h, H)
        }
        4 => (0, r.range(1, 70)),
        _ => {
            let (a, b) = (r.usz(H), r.range(1, H));
            (or_dict(r, a, H - 1), or_dict(r, b, H).max(1))
        }
    };
    if y0 > y1 {
        std::mem::swap(&mut y0, &mut y1);
    }
    if y0 == y1 {
        if y1 < H {
            y1 += 1
        } else {
            y0 -= 1
        }
    }
    rect(x0, y0, x1, y1)
}

pub fn extreme(r: &mut Rng) -> usize {
    const TOP: usize = usize::MAX;
    match r.below(13) {
        12 => dict_num(r, TOP).unwrap_or(TOP),
        0 => 0,
        1 => r.usz(4),
        2 => TOP,
        3 => TOP - r.usz(80),
        4 => TOP / 2 + r.usz(80),
        5 => TOP / 2 - r.usz(80),
        6 => (u32::MAX as usize) - r.usz(40),
        7 => (u32::MAX as usize / 2).wrapping_add(r.usz(80)).wrapping_sub(40),
        8 => TOP / WPL + r.usz(80),
        9 => TOP / WPL - r.usz(80),
        10 => 1 << r.below(usize::BITS as u64),
        _ => r.next() as usize >> r.below(usize::BITS as u64),
    }
}

pub fn coord(r: &mut Rng, lim: usize) -> usize {
    match r.below(10) {
        0 => extreme(r),
        1 => lim,
        2 => lim + 1,
        3 => lim.saturating_sub(1),
        4 => lim + r.usz(64),
        5 => 32 * r.usz(lim / 32 + 2),
        6 => dict_num(r, usize::MAX).unwrap_or(lim),
        _ => r.usz(lim + 1),
    }
}

/// Any rectangle at all, valid or not
pub fn any_rect(r: &mut Rng) -> ClipRect {
    match r.below(4) {
        0 | 1 => on_screen(r),
        2 => {
            // one coordinate of a good rectangle spoiled
            let mut c = on_screen(r);
            let lim = if r.chance(1, 2) { W } else { H };
            let v = coord(r, lim);
            match r.below(4) {
                0 => c.min.x = v,
                1 => c.min.y = v,
                2 => c.max.x = v,
                _ => c.max.y = v,
            }
            c
        }
        _ => rect(coord(r, W), coord(r, H), coord(r, W), coord(r, H)),
    }
}

/// A cursor somewhere near the rectangle
pub fn near_cursor(r: &mut Rng, c: &ClipRect) -> Cursor {
    if r.chance(1, 4) {
        return Cursor::from_top_left_of(*c);
    }
    let x = match r.below(6) {
        0 => c.min.x.min(W),
        1 => r.usz(W + 40),
        2 => (c.max.x.min(W)).saturating_sub(r.usz(40)),
        3 => (c.min.x.min(W)).saturating_sub(r.usz(40)),
        _ => c.min.x.min(W) + r.usz(60),
    };
    let y = match r.below(7) {
        0 => c.min.y.min(H),
        1 => r.usz(H + 40),
        2 => (c.max.y.min(H)).saturating_sub(r.usz(45)),
        3 => (c.min.y.min(H)).saturating_sub(r.usz(45)),
        4 => (c.min.y.min(H)).saturating_sub(r.usz(200)),
        _ => c.min.y.min(H) + r.usz(60),
    };
    let lh = match r.below(6) {
        0..=2 => 0,
        3 => *r.pick(&[24usize, 30, 32]),
        4 => r.usz(70),
        _ => r.range(20, 34),
    };
    let (x, y) = (or_dict(r, x, W + 40), or_dict(r, y, H + 40));
    let lh = match r.below(40) {
        0..=2 => or_dict(r, lh, 600),
        3 => r.usz(600),
        4 => 1usize << r.below(24),
        _ => lh,
    };
    Cursor::new(x, y, lh)
}

pub fn any_cursor(r: &mut Rng, c: &ClipRect) -> Cursor {
    if r.chance(1, 2) {
        return near_cursor(r, c);
    }
    let x = if r.chance(1, 2) { extreme(r) } else { coord(r, W) };
    let y = if r.chance(1, 2) { extreme(r) } else { coord(r, H) };
    let lh = if r.chance(1, 2) { extreme(r) } else { r.usz(100) };
    Cursor::new(x, y, lh)
}

/// Contents for part of a frame buffer, in one of several textures
pub fn fill_words(r: &mut Rng, fb: &mut [u32]) {
    match r.below(9) {
        0 => fb.fill(0),
        1 => fb.fill(!0),
        2 => fb.fill(0xffff0000),
        3 => {
            let v = r.u32();
            fb.fill(if v & 3 == 0 { dict_num(r, u32::MAX as usize).unwrap_or(0) as u32 } else { v })
        }
        4 => {
            // words that are entirely clear, entirely dark, or mixed
            for w in fb.iter_mut() {
                *w = match r.below(4) {
                    0 => 0,
                    1 => r.u32(),
                    _ => !0,
                };
            }
        }
        5 => {
            // clear with a few dark dots
            for w in fb.iter_mut() {
                *w = if r.chance(1, 6) { !(1 << r.below(32)) } else { !0 };
            }
        }
        6 => {
            // dark with a few clear dots
            for w in fb.iter_mut() {
                *w = if r.chance(1, 6) { 1 << r.below(32) } else { 0 };
            }
        }
        _ => {
            for w in fb.iter_mut() {
                *w = r.u32();
            }
        }
    }
}
pub fn fill_fb(r: &mut Rng, fb: &mut FrBuf) {
    match r.below(6) {
        0 | 1 => {
            // in bands of lines
            let mut y = 0;
            while y < H {
                let n = r.range(1, 60).min(H - y);
                fill_words(r, &mut fb[y * WPL..(y + n) * WPL]);
                y += n;
            }
        }
        _ => fill_words(r, &mut fb[..]),
    }
}
