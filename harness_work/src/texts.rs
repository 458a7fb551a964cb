//! Texts of each kind, and the ways a text can meet the screen.
use blitstr::{ClipRect, Cursor, GlyphStyle, Pt};

pub struct R(pub u64);
impl R {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

pub const EMOJI: &[&str] = &[
    "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}\u{200D}\u{1F466}", "\u{1F1EA}\u{1F1E6}", "\u{1F4F7}\u{FE0F}", "\u{1F600}", "\u{1F3CA}\u{1F3FE}\u{200D}\u{2642}\u{FE0F}",
    "\u{1F469}\u{1F3FE}\u{200D}\u{1F91D}\u{200D}\u{1F469}\u{1F3FF}", "#\u{FE0F}\u{20E3}", "\u{263A}\u{FE0F}",
];

fn new_pieces() -> Vec<String> {
    let v: Vec<String> = std::env::var("NEW_PIECES").unwrap_or_default().split('\u{1f}').filter(|s| !s.is_empty()).map(|s| s.into()).collect();
    if v.is_empty() {
        vec!["a".into()]
    } else {
        v
    }
}

pub fn text(kind: &str, r: &mut R, n: usize) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < n {
        match kind {
            "ascii" => s.push((33 + r.below(94)) as u8 as char),
            "space" => s.push(' '),
            "newlines" => s.push('\n'),
            "lines" => s.push(if i % 40 == 39 { '\n' } else { (97 + r.below(26)) as u8 as char }),
            "accents" => s.push(['\u{e9}', '\u{fc}', '\u{131}', '\u{159}', '\u{e7}'][r.below(5)]),
            "decomposed" => s.push(if i % 2 == 0 { ['e', 'u', 'a', 'c', 'n'][r.below(5)] } else { ['\u{301}', '\u{308}', '\u{300}', '\u{327}', '\u{303}'][r.below(5)] }),
            "emoji" => {
                let e = EMOJI[r.below(EMOJI.len())];
                s.push_str(e);
                i += e.chars().count() - 1;
            }
            "emoji_parts" => s.push(['\u{1F468}', '\u{200D}', '\u{FE0F}', '\u{1F1E6}', '\u{1F3FE}', '\u{20E3}', '\u{1F469}'][r.below(7)]),
            "joiners" => s.push('\u{200D}'),
            "people" => s.push('\u{1F468}'),
            "hanzi" => s.push(char::from_u32(0x4E00 + r.below(0x5000) as u32).unwrap()),
            "unlisted" => s.push(['\u{0416}', '\u{05D0}', '\u{3042}', '\u{10400}', '\u{7}', '\u{300}'][r.below(6)]),
            "marks" => s.push(if i % 500 == 0 { 'e' } else { ['\u{300}', '\u{301}', '\u{308}'][r.below(3)] }),
            "selectors" => s.push(if i % 300 == 0 { '\u{263A}' } else { '\u{FE0F}' }),
            "flags" => s.push(char::from_u32(0x1F1E6 + r.below(26) as u32).unwrap()),
            "tones" => s.push(if i % 400 == 0 { '\u{1F44B}' } else { char::from_u32(0x1F3FB + r.below(5) as u32).unwrap() }),
            "keycaps" => s.push(['#', '1', '\u{20E3}', '\u{FE0F}'][if i % 8 < 4 { r.below(4) } else { i % 2 }]),
            "one" => s.push('W'),
            "one_wide" => s.push('\u{9E45}'),
            "one_unlisted" => s.push('\u{416}'),
            "controls" => s.push(['\r', '\t', '\u{0}', '\u{b}', '\u{c}', '\u{2028}', '\u{a0}', '\u{ad}'][r.below(8)]),
            "returns" => s.push(['\r', '\n'][i % 2]),
            "new_literals" => {
                // what the sources did not mention before
                let p = new_pieces();
                let v = &p[r.below(p.len())];
                s.push_str(v);
                i += v.chars().count() - 1;
            }
            "unlisted_high" => s.push(char::from_u32(0xF0000 + r.below(0xF000) as u32).unwrap()),
            "mixed" => match r.below(12) {
                0 => s.push('\n'),
                1 | 2 => {
                    let e = EMOJI[r.below(EMOJI.len())];
                    s.push_str(e);
                    i += e.chars().count() - 1;
                }
                3 => s.push('\u{4E2D}'),
                4 => s.push('\u{0416}'),
                _ => s.push((32 + r.below(95)) as u8 as char),
            },
            _ => unreachable!(),
        }
        i += 1;
    }
    s
}

pub fn rc(a: usize, b: usize, c: usize, d: usize) -> ClipRect {
    ClipRect { min: Pt { x: a, y: b }, max: Pt { x: c, y: d } }
}

/// how the text meets the screen
pub fn settings() -> [(&'static str, ClipRect, Cursor, GlyphStyle); 10] {
    let full = rc(0, 0, 336, 536);
    let m = usize::MAX;
    [
        ("from_top", full, Cursor::new(0, 0, 0), GlyphStyle::Regular),
        ("small_style", rc(10, 10, 300, 500), Cursor::new(10, 10, 0), GlyphStyle::Small),
        ("below_clip", full, Cursor::new(0, 600, 0), GlyphStyle::Bold),
        ("above_clip", rc(0, 530, 336, 536), Cursor::new(0, 0, 0), GlyphStyle::Bold),
        ("narrow", rc(100, 0, 105, 536), Cursor::new(100, 0, 0), GlyphStyle::Regular),
        ("right_of_clip", rc(0, 0, 40, 536), Cursor::new(4000, 0, 0), GlyphStyle::Regular),
        ("empty_clip", rc(20, 20, 20, 20), Cursor::new(0, 0, 0), GlyphStyle::Regular),
        ("inverted_clip", rc(200, 300, 100, 100), Cursor::new(0, 0, 0), GlyphStyle::Small),
        ("beyond_screen", rc(0, 0, 400, 600), Cursor::new(0, 0, 0), GlyphStyle::Regular),
        ("huge_clip", rc(m / 2, m / 2, m, m), Cursor::new(0, 0, 0), GlyphStyle::Bold),
    ]
}
