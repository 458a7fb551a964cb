//! Reference model: an independent, pixel-at-a-time description of what painting must do.
//!
//! Glyphs come from tools/mkmodel.py (sprite sheets and index files), not from the font tables of
//! the library; text is segmented by comparing strings, not hashes; layout uses 128-bit numbers.
use blitstr::{ClipRect, FrBuf, GlyphStyle, LINES, WIDTH};
use std::collections::HashMap;

pub const W: usize = 336;
pub const H: usize = 536;
pub const WPL: usize = 11;
pub const STYLES: [GlyphStyle; 3] = [GlyphStyle::Small, GlyphStyle::Regular, GlyphStyle::Bold];

pub struct Glyph {
    pub w: usize,
    pub h: usize,
    pub yoff: usize,
    pub rows: Vec<u32>,
}

pub struct Entry {
    pub text: String,
    pub canon: String,
    pub alias: bool,
    pub glyph: Glyph,
}

struct Block {
    low: u32,
    high: u32,
    lens: Vec<usize>, // descending
    hashes: HashMap<u32, usize>,
}

pub struct Font {
    pub name: String,
    pub height: usize,
    pub seed: u32,
    pub entries: Vec<Entry>,
    map: HashMap<String, usize>,
    maxlen: HashMap<char, usize>,
    blocks: Vec<Block>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Match {
    /// Compare clusters as strings: the specified behaviour
    Exact,
    /// Compare 32-bit hashes only: explains the known finding about hash collisions
    Hashed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tok {
    Newline(usize),
    /// font number, entry number, byte range
    Glyph(usize, usize, usize, usize),
    /// replacement glyph (font, entry) and byte range of the unlisted character
    Unknown(usize, usize, usize, usize),
}
impl Tok {
    pub fn range(&self) -> (usize, usize) {
        match *self {
            Tok::Newline(a) => (a, a + 1),
            Tok::Glyph(_, _, a, b) | Tok::Unknown(_, _, a, b) => (a, b),
        }
    }
}

pub struct Model {
    pub fonts: Vec<Font>,
    pub emoji: usize,
    pub hanzi: usize,
    pub latin: [usize; 3], // by style number
    pub nfd_pairs: Vec<(String, String)>,
}

/// Literals of the library's sources, tried by the workload generators
pub struct Dict {
    pub nums: Vec<u64>,
    pub strs: Vec<String>,
    /// those the library did not have, or not as often, when the workloads were written
    pub new_nums: Vec<u64>,
    pub new_strs: Vec<String>,
}
pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();

/// Model cursor; u128 so that nothing can overflow
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct MCur {
    pub x: u128,
    pub y: u128,
    pub lh: u128,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Placed {
    pub font: usize,
    pub entry: usize,
    pub x0: u128,
    pub y0: u128,
}

// Same Unicode blocks as in the generator; only used to explain hash collisions
const BLOCKS: &[(u32, u32)] = &[
    (0x0000, 0x007F), (0x0080, 0x00FF), (0x0100, 0x017F), (0x2000, 0x206F), (0x20A0, 0x20CF),
    (0x2100, 0x214F), (0x2190, 0x21FF), (0x2300, 0x23FF), (0x2460, 0x24FF), (0x25A0, 0x25FF),
    (0x2600, 0x26FF), (0x2700, 0x27BF), (0x2900, 0x297F), (0x2B00, 0x2BFF), (0x3000, 0x303F),
    (0x3200, 0x32FF), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xE000, 0xF8FF), (0xFFF0, 0xFFFF),
    (0xFF00, 0xFFEF), (0x1F000, 0x1F02F), (0x1F0A0, 0x1F0FF), (0x1F100, 0x1F1FF),
    (0x1F200, 0x1F2FF), (0x1F300, 0x1F5FF), (0x1F600, 0x1F64F), (0x1F680, 0x1F6FF),
    (0x1F780, 0x1F7FF), (0x1F900, 0x1F9FF), (0x1FA70, 0x1FAFF), (0x20000, 0x2A6DF),
    (0x2A700, 0x2B73F), (0x2B740, 0x2B81F), (0x2B820, 0x2CEAF), (0x2CEB0, 0x2EBEF),
    (0x2F800, 0x2FA1F), (0x30000, 0x3134F),
];
pub fn blocks() -> &'static [(u32, u32)] {
    BLOCKS
}

/// MurmurHash3 over code points, as documented for the font tables
pub fn m3(s: &str, seed: u32) -> u32 {
    let mut h = seed;
    for c in s.chars() {
        let mut k = (c as u32).wrapping_mul(0xcc9e2d51);
        k = (k << 15 | k >> 17).wrapping_mul(0x1b873593);
        h ^= k;
        h = (h << 13 | h >> 19).wrapping_mul(5).wrapping_add(0xe6546b64);
    }
    h ^= s.len() as u32;
    h ^= h >> 16;
    h = h.wrapping_mul(0x85ebca6b);
    h ^= h >> 13;
    h = h.wrapping_mul(0xc2b2ae35);
    h ^ (h >> 16)
}

struct Rd<'a>(&'a [u8], usize);
impl Rd<'_> {
    fn u8(&mut self) -> usize {
        self.1 += 1;
        self.0[self.1 - 1] as usize
    }
    fn u32(&mut self) -> u32 {
        let b = &self.0[self.1..self.1 + 4];
        self.1 += 4;
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
    fn s(&mut self) -> String {
        let n = self.u8();
        let s = std::str::from_utf8(&self.0[self.1..self.1 + n]).unwrap().to_string();
        self.1 += n;
        s
    }
}

impl Font {
    pub fn longest(&self, s: &str) -> Option<(usize, usize)> {
        let c = s.chars().next()?;
        let max = *self.maxlen.get(&c)?;
        let mut ends = [0usize; 32];
        let mut n = 0;
        for (i, ch) in s.char_indices() {
            ends[n] = i + ch.len_utf8();
            n += 1;
            if n >= max {
                break;
            }
        }
        for e in ends[..n].iter().rev() {
            if let Some(&k) = self.map.get(&s[..*e]) {
                return Some((k, *e));
            }
        }
        None
    }
    pub fn hashed(&self, s: &str) -> Option<(usize, usize)> {
        let c = s.chars().next()? as u32;
        let b = self.blocks.iter().find(|b| b.low <= c && c <= b.high)?;
        for len in &b.lens {
            let end = s.char_indices().nth(*len).map(|(i, _)| i).unwrap_or(s.len());
            if let Some(&k) = b.hashes.get(&m3(&s[..end], self.seed)) {
                return Some((k, end));
            }
        }
        None
    }
    /// All unlisted texts of two code points whose hash is that of a listed cluster of the block in
    /// which they would be looked up
    pub fn colliding_pairs(&self, nth: usize, of: usize) -> Vec<(String, usize)> {
        let mut v = vec![];
        for b in &self.blocks {
            if !b.lens.iter().any(|l| *l >= 2) {
                continue;
            }
            let mut bits = vec![0u64; 1 << 16]; // prefilter on 22 bits
            for h in b.hashes.keys() {
                bits[(h >> 16) as usize] |= 1 << (h >> 10 & 63);
            }
            for c in (b.low..=b.high).filter(|c| *c as usize % of == nth).filter_map(char::from_u32) {
                let mut k = (c as u32).wrapping_mul(0xcc9e2d51);
                k = (k << 15 | k >> 17).wrapping_mul(0x1b873593);
                let mut h0 = self.seed ^ k;
                h0 = (h0 << 13 | h0 >> 19).wrapping_mul(5).wrapping_add(0xe6546b64);
                for d in (0..0x110000).filter_map(char::from_u32) {
                    let mut k = (d as u32).wrapping_mul(0xcc9e2d51);
                    k = (k << 15 | k >> 17).wrapping_mul(0x1b873593);
                    let mut h = h0 ^ k;
                    h = (h << 13 | h >> 19).wrapping_mul(5).wrapping_add(0xe6546b64);
                    h ^= (c.len_utf8() + d.len_utf8()) as u32;
                    h ^= h >> 16;
                    h = h.wrapping_mul(0x85ebca6b);
                    h ^= h >> 13;
                    h = h.wrapping_mul(0xc2b2ae35);
                    h ^= h >> 16;
                    if bits[(h >> 16) as usize] >> (h >> 10 & 63) & 1 == 0 {
                        continue;
                    }
                    if let Some(e) = b.hashes.get(&h) {
                        let s: String = [c, d].iter().collect();
                        if self.entries[*e].text != s {
                            v.push((s, *e));
                        }
                    }
                }
            }
        }
        v
    }
    pub fn entry(&self, text: &str) -> Option<&Entry> {
        self.map.get(text).map(|&k| &self.entries[k])
    }
}

impl Model {
    pub fn load(data: &[u8]) -> Model {
        let mut r = Rd(data, 0);
        assert_eq!(r.u32(), 0x314D5056, "bad model file");
        let nf = r.u32();
        let mut fonts = vec![];
        for _ in 0..nf {
            let name = r.s();
            let height = r.u32() as usize;
            let seed = r.u32();
            let n = r.u32();
            let mut f = Font { name, height, seed, entries: vec![], map: HashMap::new(), maxlen: HashMap::new(), blocks: vec![] };
            for _ in 0..n {
                let alias = r.u8() != 0;
                let text = r.s();
                let canon = r.s();
                let (w, h, yoff) = (r.u8(), r.u8(), r.u8());
                let rows = (0..h).map(|_| r.u32()).collect();
                let k = f.entries.len();
                let first = text.chars().next().unwrap();
                let cps = text.chars().count();
                let m = f.maxlen.entry(first).or_insert(0);
                *m = (*m).max(cps);
                f.map.insert(text.clone(), k);
                if let Some(&(low, high)) = BLOCKS.iter().find(|b| b.0 <= first as u32 && first as u32 <= b.1) {
                    let i = match f.blocks.iter().position(|b| b.low == low) {
                        Some(i) => i,
                        None => {
                            f.blocks.push(Block { low, high, lens: vec![], hashes: HashMap::new() });
                            f.blocks.len() - 1
                        }
                    };
                    let b = &mut f.blocks[i];
                    if !b.lens.contains(&cps) {
                        b.lens.push(cps);
                        b.lens.sort_by(|a, b| b.cmp(a));
                    }
                    b.hashes.insert(m3(&text, seed), k);
                }
                f.entries.push(Entry { text, canon, alias, glyph: Glyph { w, h, yoff, rows } });
            }
            fonts.push(f);
        }
        let np = r.u32();
        let nfd_pairs = (0..np).map(|_| (r.s(), r.s())).collect();
        let nums = |r: &mut Rd| -> Vec<u64> { (0..r.u32()).map(|_| r.u32() as u64 | (r.u32() as u64) << 32).collect() };
        let strs = |r: &mut Rd| -> Vec<String> { (0..r.u32()).map(|_| r.s()).collect() };
        let dict = Dict { nums: nums(&mut r), strs: strs(&mut r), new_nums: nums(&mut r), new_strs: strs(&mut r) };
        let _ = DICT.set(dict);
        let find = |n: &str| fonts.iter().position(|f: &Font| f.name == n).expect("font missing from model");
        let (emoji, hanzi) = (find("Emoji"), find("Hanzi"));
        let latin = [find("Small"), find("Regular"), find("Bold")];
        Model { fonts, emoji, hanzi, latin, nfd_pairs }
    }

    pub fn latin_font(&self, st: GlyphStyle) -> usize {
        match st {
            GlyphStyle::Small => self.latin[0],
            GlyphStyle::Regular => self.latin[1],
            GlyphStyle::Bold => self.latin[2],
        }
    }
    pub fn glyph(&self, font: usize, entry: usize) -> &Glyph {
        &self.fonts[font].entries[entry].glyph
    }
    /// Longest listed cluster at the start of s in order of font precedence
    pub fn lookup(&self, st: GlyphStyle, s: &str, m: Match) -> Option<(usize, usize, usize)> {
        for f in [self.emoji, self.latin_font(st), self.hanzi] {
            let r = match m {
                Match::Exact => self.fonts[f].longest(s),
                Match::Hashed => self.fonts[f].hashed(s),
            };
            if let Some((k, n)) = r {
                return Some((f, k, n));
            }
        }
        None
    }
    pub fn token_at(&self, st: GlyphStyle, s: &str, at: usize, m: Match) -> Tok {
        let rest = &s[at..];
        let c = rest.chars().next().unwrap();
        if c == '\n' {
            return Tok::Newline(at);
        }
        match self.lookup(st, rest, m) {
            Some((f, k, n)) => Tok::Glyph(f, k, at, at + n),
            None => {
                let f = self.latin_font(st);
                let k = *self.fonts[f].map.get("\u{FFFD}").unwrap_or(&usize::MAX);
                Tok::Unknown(f, k, at, at + c.len_utf8())
            }
        }
    }
    pub fn tokens(&self, st: GlyphStyle, s: &str, m: Match) -> Vec<Tok> {
        let mut v = vec![];
        let mut at = 0;
        while at < s.len() {
            let t = self.token_at(st, s, at, m);
            at = t.range().1;
            v.push(t);
        }
        v
    }
    /// Would a lookup that compares only hashes read this text differently?
    pub fn collides(&self, st: GlyphStyle, s: &str) -> bool {
        self.tokens(st, s, Match::Exact) != self.tokens(st, s, Match::Hashed)
    }

    pub fn newline(&self, clip: &ClipRect, c: &mut MCur) {
        c.x = clip.min.x as u128;
        c.y += c.lh.max(self.fonts[self.latin[0]].height as u128) + 1;
        c.lh = 0;
    }

    /// Paint one glyph; returns where its top left pixel went
    pub fn put(&self, fb: &mut FrBuf, clip: &ClipRect, c: &mut MCur, font: usize, entry: usize) -> Placed {
        let g = self.glyph(font, entry);
        let (minx, miny) = (clip.min.x as u128, clip.min.y as u128);
        let (maxx, maxy) = (clip.max.x as u128, clip.max.y as u128);
        if c.x < minx {
            c.x = minx;
        }
        // padded box is columns c.x .. c.x + 1 + w + 2
        if c.x + 1 + g.w as u128 + 2 >= maxx {
            self.newline(clip, c);
        }
        let x0 = c.x + 1;
        let y0 = c.y + g.yoff as u128;
        if y0 < maxy {
            for (r, bits) in g.rows.iter().enumerate() {
                let y = y0 + r as u128;
                if y < miny || y >= maxy {
                    continue;
                }
                let mut b = *bits;
                while b != 0 {
                    let i = b.trailing_zeros();
                    b &= b - 1;
                    let x = x0 + i as u128;
                    if x >= minx && x < maxx {
                        fb[y as usize * WPL + x as usize / 32] ^= 1 << (x as usize % 32);
                    }
                }
            }
        }
        c.x += g.w as u128 + 3;
        c.lh = c.lh.max(self.fonts[font].height as u128);
        Placed { font, entry, x0, y0 }
    }

    pub fn valid_clip(clip: &ClipRect) -> bool {
        clip.max.x <= WIDTH && clip.max.y <= LINES && clip.min.x < clip.max.x
    }

    /// Paint a text; only for rectangles that lie on the screen
    pub fn paint(&self, fb: &mut FrBuf, clip: &ClipRect, c: &mut MCur, st: GlyphStyle, s: &str, m: Match) {
        let mut at = 0;
        while at < s.len() {
            let t = self.token_at(st, s, at, m);
            at = t.range().1;
            match t {
                Tok::Newline(_) => self.newline(clip, c),
                Tok::Glyph(f, k, _, _) | Tok::Unknown(f, k, _, _) => {
                    self.put(fb, clip, c, f, k);
                }
            }
        }
    }
}
