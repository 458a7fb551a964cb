//! Paint calls to be counted by callgrind: one profile dump per call of `measured`.
//! usage: work KIND SEED N...     prints one line per dump: setting n chars bytes
use blitstr::{paint_str, ClipRect, Cursor, FrBuf, GlyphStyle};

mod texts;
use texts::*;

#[inline(never)]
#[no_mangle]
pub fn measured(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle, s: &str) {
    paint_str(fb, clip, c, st, s);
    std::hint::black_box(&fb);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (kind, seed) = (&a[1], a[2].parse::<u64>().unwrap());
    let mut fb: Box<FrBuf> = Box::new(blitstr::new_fr_buf());
    let full = rc(0, 0, 336, 536);
    let out = |w: &str, n: usize, s: &str| {
        use std::io::Write;
        println!("{} {} {} {}", w, n, s.chars().count(), s.len());
        std::io::stdout().flush().unwrap();
    };
    let ns: Vec<usize> = a[3..].iter().map(|s| s.parse().unwrap()).collect();
    for n in ns {
        let s = text(kind, &mut R(seed), n);
        for (w, clip, cur, st) in settings() {
            let mut c = cur;
            out(w, n, &s);
            measured(&mut fb, clip, &mut c, st, &s);
        }
    }
    // very long ones where nothing is painted
    for n in std::env::var("VERY_LONG").unwrap_or_default().split(',').filter_map(|v| v.parse().ok()) {
        let s = text(kind, &mut R(seed), n);
        for (w, clip, cur, st) in settings().into_iter().filter(|s| ["below_clip", "huge_clip"].contains(&s.0)) {
            let mut c = cur;
            out(w, n, &s);
            measured(&mut fb, clip, &mut c, st, &s);
        }
    }
    // the same short text at growing distances
    let s = text(kind, &mut R(seed), 100);
    for p in [10u32, 13, 16, 20, 24, 32, 48, 62] {
        let d = 1usize << p;
        for (w, clip, cur) in [
            ("d_down", full, Cursor::new(0, d, 0)),
            ("d_right", full, Cursor::new(d, 0, 0)),
            ("d_both", rc(3, 3, 80, 80), Cursor::new(d, d, 0)),
            ("d_line_height", full, Cursor::new(0, 0, d)),
            ("d_clip", rc(0, 0, d, d), Cursor::new(0, 0, 0)),
            ("d_clip_from", rc(d, d, 2 * d, 2 * d), Cursor::new(0, 0, 0)),
            ("d_clip_inverted", rc(d, d, 0, 0), Cursor::new(0, 0, 0)),
            ("d_clip_down", rc(0, d, 336, 536), Cursor::new(0, 0, 0)),
        ] {
            let mut c = cur;
            out(&format!("{}^{}", w, p), 100, &s);
            measured(&mut fb, clip, &mut c, GlyphStyle::Regular, &s);
        }
    }
}
