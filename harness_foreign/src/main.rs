//! Repeats calls whose results the reference model has worked out, on a target this machine does not have (run
//! by Miri).  stdin: one call a line, as written by `vmon foreign`.
use blitstr::{clear_region, demo, paint_str, ClipRect, Cursor, GlyphStyle, Pt};

fn main() {
    let mut fb = Box::new(blitstr::new_fr_buf());
    fb.fill(0);
    let (mut calls, mut looks) = (0, 0);
    let mut since: Vec<String> = vec![];
    for line in std::io::read_to_string(std::io::stdin()).unwrap().lines() {
        let f: Vec<&str> = line.split(' ').collect();
        let n = |i: usize| f[i].parse::<usize>().unwrap();
        let clip = || ClipRect { min: Pt { x: n(1), y: n(2) }, max: Pt { x: n(3), y: n(4) } };
        match f[0] {
            "paint" => {
                let text: Vec<u8> = (0..f[12].len() / 2).map(|i| u8::from_str_radix(&f[12][2 * i..2 * i + 2], 16).unwrap()).collect();
                let mut c = Cursor::new(n(5), n(6), n(7));
                paint_str(&mut fb, clip(), &mut c, GlyphStyle::from(n(8)), std::str::from_utf8(&text).unwrap());
                if (c.pt.x, c.pt.y, c.line_height) != (n(9), n(10), n(11)) {
                    println!("WRONG cursor ({},{},{}) after: {}", c.pt.x, c.pt.y, c.line_height, line);
                    return;
                }
                calls += 1;
            }
            "clear" => {
                clear_region(&mut fb, clip());
                calls += 1;
            }
            "scene" => {
                match f[1] {
                    "sample_text" => demo::sample_text(&mut fb),
                    "goose_poem" => demo::goose_poem(&mut fb),
                    _ => demo::short_greeting(&mut fb),
                }
                calls += 1;
            }
            _ => {
                // the rows that the calls since the last look may have touched, and some others
                let mut h = 0xcbf29ce484222325u64;
                for y in n(1)..n(2) {
                    for w in 0..11 {
                        h = (h ^ fb[y * 11 + w] as u64).wrapping_mul(0x100000001b3);
                    }
                }
                if h != f[3].parse::<u64>().unwrap() {
                    println!("WRONG pixels in rows {}..{} after: {}", f[1], f[2], since.join(" | "));
                    return;
                }
                looks += 1;
                since.clear();
                continue;
            }
        }
        since.push(line.to_string());
    }
    println!("calls {} looks {} bits {} endian {}", calls, looks, usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" });
}
