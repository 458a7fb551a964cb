//! C05 - C08
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use blitstr::*;

// ---------------------------------------------------------------- C05
/// Paint from the top left corner of the screen and compare with the model. The text should be short.
pub fn reads_as(env: &mut Env, st: GlyphStyle, s: &str) -> Res {
    let r = vs_model(env, &full(), &Cursor::new(2, 0, 0), st, s, "zeros", true);
    if let Err(v) = r {
        let m = &env.ctx.model;
        let toks: Vec<String> = m
            .tokens(st, s, Match::Exact)
            .iter()
            .take(40)
            .map(|t| match *t {
                Tok::Newline(_) => "newline".to_string(),
                Tok::Glyph(f, _, a, b) => format!("{}:{}", m.fonts[f].name, show_text(&s[a..b])),
                Tok::Unknown(_, _, a, b) => format!("replacement for {}", show_text(&s[a..b])),
            })
            .collect();
        return viol(format!("{}; expected reading: [{}]", v.msg, toks.join(", ")), v.case);
    }
    Ok(())
}
fn wipe_text(env: &mut Env) {
    wipe(env, 0, 110);
}
fn c05_scalars(env: &mut Env, idx: u64) -> Res {
    let mut s = String::new();
    wipe_all(env);
    let mut n = 0;
    for c in scalars(idx) {
        s.clear();
        s.push(c);
        for st in STYLES {
            reads_as(env, st, &s)?;
            wipe(env, 0, 64);
        }
        n += 1;
        env.st.nontrivial(c as u64);
    }
    env.st.add("scalar values painted alone in every style", n);
    Ok(())
}
/// Code points that matter after a cluster
const SUFFIX: &[u32] = &[
    0xFE0F, 0xFE0E, 0x200D, 0x20E3, 0x1F3FB, 0x1F3FC, 0x1F3FD, 0x1F3FE, 0x1F3FF, 0x2640, 0x2642, 0x1F1E6, 0x1F1F8, 0x1F466, 0x1F467,
    0x1F468, 0x1F469, 0x2764, 0x1F48B, 0xE0067, 0xE007F, 0x300, 0x301, 0x302, 0x303, 0x308, 0x30A, 0x30C, 0x327, 0x328, 0x31, 0x41, 0x65,
    0xA, 0x20, 0x4E00, 0xFFFD, 0x10FFFF, 0xAD, 0x1F384, 0x1F308, 0x2695, 0x1F4BB, 0x23,
];
fn c05_suffixes(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    wipe_all(env);
    let mut s = String::new();
    for i in idx as usize * 64..(idx as usize * 64 + 64).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let t = &ctx.model.fonts[f].entries[k].text;
        for (j, suf) in SUFFIX.iter().enumerate() {
            let c = char::from_u32(*suf).unwrap();
            s.clear();
            s.push_str(t);
            s.push(c);
            let st = style_for(&ctx.model, f, i + j);
            reads_as(env, st, &s)?;
            wipe_text(env);
            // the suffix twice, and a joined second cluster
            s.push(c);
            if j % 4 == i % 4 {
                s.push_str(t);
            }
            reads_as(env, st, &s)?;
            wipe_text(env);
            env.st.nontrivial((i * 64 + j) as u64);
        }
    }
    Ok(())
}
fn c05_truncated(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    wipe_all(env);
    let mut r = env.rng(51, idx);
    // every multi code point cluster of every font, all prefixes and all one-code-point changes
    let multi: Vec<(usize, usize)> = ctx.pools.all.iter().copied().filter(|&(f, k)| m.fonts[f].entries[k].text.chars().count() > 1).collect();
    let per = 16;
    for i in idx as usize * per..(idx as usize * per + per).min(multi.len()) {
        let (f, k) = multi[i];
        let c: Vec<char> = m.fonts[f].entries[k].text.chars().collect();
        let st = style_for(m, f, i);
        let mut texts: Vec<String> = vec![];
        for n in 1..=c.len() {
            let p: String = c[..n].iter().collect();
            texts.push(format!("{}A", p));
            texts.push(format!("{}\n{}", p, p));
            texts.push(format!("{}{}", p, m.fonts[f].entries[k].text));
            texts.push(format!("x{}", p));
            texts.push(p);
            let rest: String = c[n..].iter().collect();
            texts.push(rest);
        }
        for j in 0..c.len() {
            let mut d = c.clone();
            d.remove(j);
            texts.push(d.iter().collect());
            for _ in 0..4 {
                let mut d = c.clone();
                d[j] = *r.pick(&ctx.pools.parts);
                texts.push(d.iter().collect());
                let mut d = c.clone();
                d.insert(j, *r.pick(&ctx.pools.parts));
                texts.push(d.iter().collect());
            }
            let mut d = c.clone();
            d.swap(j, (j + 1) % c.len());
            texts.push(d.iter().collect());
            let mut d = c.clone();
            d.insert(j, c[j]);
            texts.push(d.iter().collect());
        }
        if i % 512 == 0 {
            env.st.sample(|| texts.iter().take(8).map(|t| show_text(t)).collect::<Vec<_>>().join(" / "));
        }
        for t in &texts {
            env.st.nontrivial(fnv(5, t.as_bytes()));
            let s3 = if m.latin.contains(&f) { vec![STYLES[0], STYLES[1], STYLES[2]] } else { vec![st] };
            for st in s3 {
                reads_as(env, st, t)?;
                wipe_text(env);
            }
        }
    }
    Ok(())
}
/// all two-character texts: (first char of any cluster of several code points) x (any part)
fn c05_pairs(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let firsts = firsts(ctx);
    if idx as usize >= firsts.len() {
        return Ok(());
    }
    wipe_all(env);
    let a = firsts[idx as usize];
    let mut s = String::new();
    for (j, b) in ctx.pools.parts.iter().enumerate() {
        s.clear();
        s.push(a);
        s.push(*b);
        reads_as(env, STYLES[(j + idx as usize) % 3], &s)?;
        wipe(env, 0, 64);
        if env.ctx.thorough {
            for c in &ctx.pools.parts {
                if (*c as u32 ^ j as u32) % 5 == 0 {
                    s.push(*c);
                    reads_as(env, STYLES[(j + idx as usize) % 3], &s)?;
                    wipe(env, 0, 64);
                    s.pop();
                }
            }
        }
        env.st.nontrivial((a as u64) << 32 | *b as u64);
    }
    Ok(())
}
pub fn firsts(ctx: &Ctx) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    for (f, k) in &ctx.pools.all {
        let t = &ctx.model.fonts[*f].entries[*k].text;
        if t.chars().count() > 1 {
            v.push(t.chars().next().unwrap());
        }
    }
    v.sort();
    v.dedup();
    v
}
fn c05_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(53, idx);
    wipe_all(env);
    for i in 0..20 {
        let s = text(&mut r, &env.ctx.model, &env.ctx.pools, 24);
        let st = style(&mut r);
        if i == 0 {
            env.st.sample(|| show_text(&s));
        }
        env.st.add("code points in random texts", s.chars().count() as u64);
        env.st.nontrivial(fnv(9, s.as_bytes()));
        reads_as(env, st, &s)?;
        wipe_all(env);
    }
    Ok(())
}
/// sequences of nothing but emoji parts: ambiguous joins
fn c05_soup(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(54, idx);
    let ctx = env.ctx;
    let fam_chars: Vec<char> = "\u{1F468}\u{1F469}\u{1F466}\u{1F467}\u{200D}\u{FE0F}\u{2764}\u{1F48B}\u{1F3FB}\u{1F3FC}\u{1F3FD}\u{1F3FE}\u{1F3FF}\u{1F91D}\u{1F9D1}\u{2640}\u{2642}".chars().collect();
    let ri: Vec<char> = (0x1F1E6..=0x1F1FF).filter_map(char::from_u32).collect();
    let keys: Vec<char> = "0123456789#*\u{FE0F}\u{20E3}".chars().collect();
    let tags: Vec<char> = "\u{1F3F4}\u{E0067}\u{E0062}\u{E0065}\u{E006E}\u{E0073}\u{E0063}\u{E0074}\u{E0077}\u{E006C}\u{E007F}\u{1F3F3}\u{FE0F}\u{200D}\u{1F308}\u{2620}".chars().collect();
    wipe_all(env);
    for _ in 0..40 {
        let pool = match r.below(6) {
            0 | 1 => &fam_chars,
            2 => &ri,
            3 => &keys,
            4 => &tags,
            _ => &ctx.pools.parts,
        };
        let n = r.range(1, 14);
        let s: String = (0..n).map(|_| *r.pick(pool)).collect();
        env.st.nontrivial(fnv(10, s.as_bytes()));
        reads_as(env, style(&mut r), &s)?;
        wipe(env, 0, 300);
    }
    Ok(())
}
fn c05_long(env: &mut Env, idx: u64) -> Res {
    // long text: what is on screen at the end depends on every character before it
    let mut r = env.rng(55, idx);
    wipe_all(env);
    let mut s = String::new();
    let want = [9_000, 40_000, 70_000, 150_000][idx as usize % 4];
    let (m, p) = (&env.ctx.model, &env.ctx.pools);
    while s.len() < want {
        if idx % 2 == 0 {
            piece(&mut r, m, p, &mut s);
        } else {
            let (f, k) = *r.pick(&p.all);
            s.push_str(&m.fonts[f].entries[k].text);
        }
    }
    let st = style(&mut r);
    // measure with the model where the text ends, then start that much above the screen, if possible;
    // otherwise the cursor alone tells
    env.st.nontrivial(fnv(11, s.as_bytes()));
    env.st.add("bytes in long texts", s.len() as u64);
    let v = vs_model(env, &full(), &Cursor::new(0, 0, 0), st, &s, "zeros", true);
    wipe_all(env);
    if let Err(v) = v {
        // a 32-bit hash collision somewhere in a long text is likely enough to look closer
        return viol(v.msg, v.case);
    }
    Ok(())
}
fn c05_newlines(env: &mut Env, idx: u64) -> Res {
    let seps = ["\n", "\r", "\r\n", "\n\r", "\u{85}", "\u{2028}", "\u{2029}", "\u{B}", "\u{C}", "\t", "\u{0}", "\n\n", "\n\n\n\n\n"];
    let parts = ["", "a", "\u{1F638}", "\u{9D5D}", "\u{10FFFF}", "e\u{301}", "\u{1F3FB}", "\u{FE0F}", "1\u{FE0F}\u{20E3}", "\u{1F468}\u{200D}"];
    let i = idx as usize;
    wipe_all(env);
    let sep = seps[i % seps.len()];
    let a = parts[i / seps.len() % parts.len()];
    for b in parts {
        for st in STYLES {
            for s in [format!("{}{}{}", a, sep, b), format!("{}{}", sep, b), format!("{}{}{}{}{}", a, sep, b, sep, a), format!("{}{}{}", a, b, sep)] {
                reads_as(env, st, &s)?;
                wipe_all(env);
                env.st.nontrivial(fnv(12 + st as u64, s.as_bytes()));
            }
        }
    }
    Ok(())
}
pub fn c05(ctx: &Ctx) -> Check {
    let chunks = (ctx.pools.all.len() as u64 + 63) / 64;
    let multi = ctx.pools.all.iter().filter(|&&(f, k)| ctx.model.fonts[f].entries[k].text.chars().count() > 1).count() as u64;
    Check {
        id: "C05",
        rule: "every scalar value alone in every style; every cluster with each of 44 suffixes once, twice and joined; every multi-code-point cluster truncated, extended, substituted, doubled; all pairs (first code point of a multi-code-point cluster, any cluster part); newline look-alikes; random texts up to 150,000 bytes; non-trivial: distinct texts; observed: frame buffer and cursor against a string-comparing longest-match model",
        workloads: vec![
            Workload { name: "focus", quick: 400_000, thorough: 12_000_000, exhaustive: false, run: crate::fuzz::focus::<5> },
            Workload { name: "scalars", quick: SCALARS / CHUNK, thorough: SCALARS / CHUNK, exhaustive: true, run: c05_scalars },
            Workload { name: "suffixes", quick: chunks, thorough: chunks, exhaustive: true, run: c05_suffixes },
            Workload { name: "truncated", quick: (multi + 15) / 16, thorough: (multi + 15) / 16, exhaustive: false, run: c05_truncated },
            Workload { name: "pairs", quick: firsts(ctx).len() as u64, thorough: firsts(ctx).len() as u64, exhaustive: true, run: c05_pairs },
            Workload { name: "soup", quick: 60_000, thorough: 900_000, exhaustive: false, run: c05_soup },
            Workload { name: "newlines", quick: 130, thorough: 130, exhaustive: true, run: c05_newlines },
            Workload { name: "random", quick: 60_000, thorough: 1_800_000, exhaustive: false, run: c05_random },
            Workload { name: "long", quick: 32, thorough: 400, exhaustive: false, run: c05_long },
        ],
    }
}

// ---------------------------------------------------------------- C06
/// The text with every unlisted character written as U+FFFD
pub fn substituted(m: &Model, st: GlyphStyle, s: &str) -> (String, usize) {
    let mut out = String::new();
    let mut n = 0;
    for t in m.tokens(st, s, Match::Exact) {
        let (a, b) = t.range();
        match t {
            Tok::Unknown(..) => {
                n += 1;
                out.push('\u{FFFD}')
            }
            _ => out.push_str(&s[a..b]),
        }
    }
    (out, n)
}
/// env.a and env.b all zero on entry and on successful return
pub fn as_substituted(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str, sub: &str, rows: usize) -> Res {
    env.st.evaluations += 1;
    let (mut c1, mut c2) = (*cur, *cur);
    paint_str(&mut env.a, *clip, &mut c1, st, s);
    paint_str(&mut env.b, *clip, &mut c2, st, sub);
    if !same(&env.a, &env.b) || c1 != c2 {
        let msg = format!(
            "differs from painting {}: {}; cursor {} instead of {}",
            show_text(sub),
            show_diff(&env.a, &env.b),
            show_cur(&c1),
            show_cur(&c2)
        );
        if !collision_explains(env, clip, cur, st, s) && !collision_explains(env, clip, cur, st, sub) {
            return viol(msg, show_call(clip, cur, st, s, "zeros"));
        }
    }
    wipe(env, 0, rows);
    Ok(())
}
/// U+FFFD by itself paints the replacement glyph of the style, at every column
fn c06_replacement(env: &mut Env, idx: u64) -> Res {
    wipe_all(env);
    let st = STYLES[idx as usize % 3];
    for x in 0..W + 20 {
        for s in ["\u{FFFD}", "\u{10FFFF}", "\u{E123}", "\u{378}", "\u{7F}", "\u{0}", "\u{FE0F}", "\u{200D}", "\u{5D0}"] {
            vs_model(env, &full(), &Cursor::new(x, 5, 0), st, s, "zeros", true)?;
            wipe(env, 0, 80);
            env.st.nontrivial(fnv((x * 3) as u64 + idx, s.as_bytes()));
        }
    }
    Ok(())
}
fn c06_scalars(env: &mut Env, idx: u64) -> Res {
    let m = &env.ctx.model;
    wipe_all(env);
    let mut n = 0;
    let mut s = String::new();
    for c in scalars(idx) {
        let one = c.to_string();
        for st in STYLES {
            if c == '\n' || m.lookup(st, &one, Match::Exact).is_some() {
                continue;
            }
            n += 1;
            as_substituted(env, &full(), &Cursor::new(0, 0, 0), st, &one, "\u{FFFD}", 64)?;
            s.clear();
            for d in ['A', c, c, '\u{1F638}', c, '\u{9D5D}', '\n', c, 'g', c] {
                s.push(d);
            }
            let (sub, k) = substituted(m, st, &s);
            if k != 6 {
                // c continues a listed cluster here (e.g. a combining mark)
                env.st.add("contexts in which the character joins a cluster", 1);
            }
            as_substituted(env, &full(), &Cursor::new(0, 0, 0), st, &s, &sub, 120)?;
            if let (false, Some(d)) = ((c as u32) % 7 > 0, char::from_u32(c as u32 ^ 0x55)) {
                // different unlisted neighbours
                s.clear();
                s.extend([c, d, c, ' ', d]);
                let (sub, _) = substituted(m, st, &s);
                as_substituted(env, &full(), &Cursor::new(0, 0, 0), st, &s, &sub, 120)?;
            }
        }
        if n > 0 {
            env.st.nontrivial(c as u64);
        }
    }
    env.st.add("unlisted (scalar value, style) pairs", n);
    Ok(())
}
fn c06_random(env: &mut Env, idx: u64) -> Res {
    let m = &env.ctx.model;
    let p = &env.ctx.pools;
    let mut r = env.rng(61, idx);
    wipe_all(env);
    for i in 0..20 {
        let mut s = String::new();
        for _ in 0..r.range(1, 20) {
            match r.below(4) {
                0 => s.push(any_char(&mut r)),
                1 => s.push(*r.pick(&p.edges)),
                2 => {
                    let c = any_char(&mut r);
                    for _ in 0..r.range(1, 6) {
                        s.push(c)
                    }
                }
                _ => piece(&mut r, m, p, &mut s),
            }
        }
        let st = style(&mut r);
        let clip = on_screen(&mut r);
        let cur = near_cursor(&mut r, &clip);
        let (sub, n) = substituted(m, st, &s);
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "zeros"));
        }
        env.st.add("unlisted characters in random texts", n as u64);
        if n > 0 {
            env.st.nontrivial(key(&clip, &cur, st, &s));
        }
        as_substituted(env, &clip, &cur, st, &s, &sub, H)?;
    }
    Ok(())
}
fn c06_runs(env: &mut Env, idx: u64) -> Res {
    // long runs of unlisted characters of every UTF-8 length, at the end, start and middle
    let mut r = env.rng(62, idx);
    wipe_all(env);
    let m = &env.ctx.model;
    let bad = ['\u{7F}', '\u{5D0}', '\u{E123}', '\u{10FFFF}', '\u{0}', '\u{378}', '\u{FFFF}', '\u{2FFFE}'];
    for len in [1usize, 2, 3, 4, 7, 8, 9, 31, 32, 33, 100, 255, 256, 257, 1000, 5000] {
        let c = *r.pick(&bad);
        for form in 0..4 {
            let run: String = if form == 3 { (0..len).map(|_| *r.pick(&bad)).collect() } else { std::iter::repeat(c).take(len).collect() };
            let s = match form {
                0 => run,
                1 => format!("ab{}", run),
                2 => format!("{}\u{1F638}", run),
                _ => format!("x{}\ny", run),
            };
            let st = style(&mut r);
            let (sub, n) = substituted(m, st, &s);
            env.st.add("unlisted characters in runs", n as u64);
            env.st.nontrivial(fnv(idx, s.as_bytes()));
            let clip = if r.chance(1, 2) { full() } else { on_screen(&mut r) };
            as_substituted(env, &clip, &Cursor::from_top_left_of(clip), st, &s, &sub, H)?;
        }
    }
    Ok(())
}
pub fn c06(_ctx: &Ctx) -> Check {
    Check {
        id: "C06",
        rule: "every unlisted scalar value in every style: alone, between listed clusters, doubled, at the end; runs of up to 5000; random texts rich in unlisted characters in random rectangles; non-trivial: text with at least one unlisted character; observed: frame buffer and cursor against the text with U+FFFD substituted, and U+FFFD against its sprite",
        workloads: vec![
            Workload { name: "focus", quick: 400_000, thorough: 12_000_000, exhaustive: false, run: crate::fuzz::focus::<6> },
            Workload { name: "replacement", quick: 3, thorough: 3, exhaustive: true, run: c06_replacement },
            Workload { name: "scalars", quick: SCALARS / CHUNK, thorough: SCALARS / CHUNK, exhaustive: true, run: c06_scalars },
            Workload { name: "runs", quick: 192, thorough: 6_000, exhaustive: false, run: c06_runs },
            Workload { name: "random", quick: 48_000, thorough: 1_800_000, exhaustive: false, run: c06_random },
        ],
    }
}

// ---------------------------------------------------------------- C07
/// Paint over zeros (env.a) and over the background in env.c (copied to env.b): same pixels inverted,
/// same cursor; then paint again: background restored.
pub fn is_xor(env: &mut Env, clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str) -> Res {
    env.st.evaluations += 1;
    env.a.fill(0);
    let (mut c1, mut c2) = (*cur, *cur);
    paint_str(&mut env.a, *clip, &mut c1, st, s);
    let c = &*env.c;
    env.b.copy_from_slice(c);
    paint_str(&mut env.b, *clip, &mut c2, st, s);
    let case = || show_call(clip, cur, st, s, "random / zeros");
    if c1 != c2 {
        return viol(format!("cursor depends on the background: {} / {}", show_cur(&c2), show_cur(&c1)), case());
    }
    let mut n = 0;
    for i in 0..FRAME_BUF_SIZE {
        let d = env.b[i] ^ env.c[i];
        if d != env.a[i] {
            let x = (i % WPL) * 32 + (d ^ env.a[i]).trailing_zeros() as usize;
            return viol(format!("pixel ({},{}) is inverted over one background but not over another", x, i / WPL), case());
        }
        n += d.count_ones();
    }
    // once more: the background again
    let mut c3 = *cur;
    paint_str(&mut env.b, *clip, &mut c3, st, s);
    if !same(&env.b, &env.c) {
        return viol(format!("painting twice does not restore the background: {}", show_diff(&env.b, &env.c)), case());
    }
    if c3 != c1 {
        return viol(format!("cursor after painting again: {} instead of {}", show_cur(&c3), show_cur(&c1)), case());
    }
    if n > 0 {
        env.st.nontrivial(key(clip, cur, st, s));
        env.st.add("pixels inverted", n as u64);
    }
    Ok(())
}
fn c07_bg(env: &mut Env, r: &mut Rng) {
    fill_fb(r, &mut env.c);
    if r.chance(1, 3) {
        // something already painted
        let clip = on_screen(r);
        let s = text(r, &env.ctx.model, &env.ctx.pools, 20);
        let mut c = Cursor::from_top_left_of(clip);
        paint_str(&mut env.c, clip, &mut c, style(r), &s);
    }
}
fn c07_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(71, idx);
    for i in 0..20 {
        if i % 5 == 0 {
            c07_bg(env, &mut r);
        }
        let s = text(&mut r, &env.ctx.model, &env.ctx.pools, 16);
        let clip = if r.chance(7, 8) { on_screen(&mut r) } else { any_rect(&mut r) };
        let cur = if r.chance(7, 8) { near_cursor(&mut r, &clip) } else { any_cursor(&mut r, &clip) };
        let st = style(&mut r);
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "random"));
        }
        is_xor(env, &clip, &cur, st, &s)?;
    }
    Ok(())
}
fn c07_clusters(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let mut r = env.rng(72, idx);
    c07_bg(env, &mut r);
    let rounds = if ctx.thorough { 200 } else { 12 };
    for i in idx as usize * 32..(idx as usize * 32 + 32).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let e = &ctx.model.fonts[f].entries[k];
        for _ in 0..rounds {
            let cur = Cursor::new(r.usz(W), r.usz(H), 0);
            is_xor(env, &full(), &cur, style_for(&ctx.model, f, i), &e.text)?;
        }
    }
    Ok(())
}
fn c07_self(env: &mut Env, idx: u64) -> Res {
    // backgrounds made of the very same glyphs, shifted by a pixel or not at all
    let ctx = env.ctx;
    let mut r = env.rng(73, idx);
    for _ in 0..12 {
        let (f, k) = *r.pick(&ctx.pools.all);
        let e = &ctx.model.fonts[f].entries[k];
        let st = style_for(&ctx.model, f, r.usz(3));
        let (x, y) = (r.usz(W - 40), r.usz(H - 40));
        env.c.fill(if r.chance(1, 2) { 0 } else { !0 });
        for _ in 0..r.range(1, 3) {
            let mut c = Cursor::new(x + r.usz(2), y + r.usz(2), 0);
            paint_str(&mut env.c, full(), &mut c, st, &e.text);
        }
        is_xor(env, &full(), &Cursor::new(x, y, 0), st, &e.text)?;
        let n = r.range(2, 40);
        let s: String = std::iter::repeat(e.text.as_str()).take(n).collect();
        is_xor(env, &full(), &Cursor::new(x, y, 0), st, &s)?;
    }
    Ok(())
}
pub fn c07(ctx: &Ctx) -> Check {
    let chunks = (ctx.pools.all.len() as u64 + 31) / 32;
    Check {
        id: "C07",
        rule: "every cluster and random texts over zeros, ones, stripes, random words, and backgrounds holding the same or other glyphs; non-trivial: at least one pixel inverted; observed: set of inverted pixels and cursor over two backgrounds, and the background after painting twice",
        workloads: vec![
            Workload { name: "focus", quick: 120_000, thorough: 4_000_000, exhaustive: false, run: crate::fuzz::focus::<7> },
            Workload { name: "clusters", quick: chunks, thorough: chunks, exhaustive: false, run: c07_clusters },
            Workload { name: "self_overlap", quick: 24_000, thorough: 360_000, exhaustive: false, run: c07_self },
            Workload { name: "random", quick: 120_000, thorough: 3_600_000, exhaustive: false, run: c07_random },
        ],
    }
}

// ---------------------------------------------------------------- C08
fn c08_wrap(env: &mut Env, idx: u64) -> Res {
    // one glyph of every width x every cursor column x every right edge
    let ctx = env.ctx;
    let m = &ctx.model;
    let nw = ctx.pools.widths.len() as u64;
    let (f, k) = ctx.pools.widths[(idx % nw) as usize];
    let block = idx / nw; // right edges in 12 blocks of 28
    let e = &m.fonts[f].entries[k];
    let mut r = env.rng(81, idx);
    wipe_all(env);
    for maxx in (block * 28 + 1) as usize..=(block * 28 + 28) as usize {
        let st = style_for(m, f, maxx);
        for x in 0..=maxx + 3 {
            let minx = match x % 4 {
                0 => 0,
                1 => r.usz(maxx),
                2 => x.min(maxx - 1),
                _ => maxx.saturating_sub(e.glyph.w + 3 + r.usz(3)),
            };
            let clip = rect(minx, 0, maxx, H);
            let lh = *r.pick(&[0usize, 0, 24, 30, 32, 40]);
            let y = r.usz(300);
            vs_model(env, &clip, &Cursor::new(x, y, lh), st, &e.text, "zeros", true)?;
            wipe(env, y, y + 80);
        }
        env.st.nontrivial(idx << 16 | maxx as u64);
    }
    Ok(())
}
fn c08_lines(env: &mut Env, idx: u64) -> Res {
    // every sequence of up to five items from: emoji, latin, hanzi, space, newline, unlisted, in
    // every style, with line heights passed in
    let items = ["\u{1F638}", "g", "\u{9D5D}", " ", "\n", "\u{10FFFF}"];
    let n = items.len() as u64;
    let mut s = String::new();
    let mut v = idx;
    for _ in 0..5 {
        let d = v % (n + 1);
        v /= n + 1;
        if d < n {
            s.push_str(items[d as usize]);
        }
    }
    wipe_all(env);
    for st in STYLES {
        for lh in [0, 1, 23, 24, 25, 29, 30, 31, 32, 33, 100] {
            for clip in [full(), rect(40, 0, 80, H), rect(5, 0, 25, H)] {
                vs_model(env, &clip, &Cursor::new(clip.min.x, 3, lh), st, &s, "zeros", true)?;
                env.st.nontrivial(key(&clip, &Cursor::new(0, 3, lh), st, &s));
            }
        }
        wipe_all(env);
    }
    Ok(())
}
fn c08_styles(env: &mut Env, idx: u64) -> Res {
    // lines built from calls in different styles with one cursor
    let m = &env.ctx.model;
    let p = &env.ctx.pools;
    let mut r = env.rng(83, idx);
    for _ in 0..10 {
        wipe_all(env);
        let clip = on_screen(&mut r);
        let start = near_cursor(&mut r, &clip);
        let mut c = start;
        let mut mc = to_mcur(&c);
        let mut log = String::new();
        let mut skip = false;
        for _ in 0..r.range(2, 12) {
            let st = style(&mut r);
            let s = match r.below(4) {
                0 => "\n".to_string(),
                1 => listed_text(&mut r, m, p, st, 3),
                _ => text(&mut r, m, p, 4),
            };
            skip |= m.collides(st, &s);
            log.push_str(&format!(" {:?} {}", st, show_text(&s)));
            paint_str(&mut env.a, clip, &mut c, st, &s);
            m.paint(&mut env.b, &clip, &mut mc, st, &s, Match::Exact);
            env.st.evaluations += 1;
            if skip {
                env.st.add("skipped: text with hash collision", 1);
                break;
            }
            if !cur_matches(&c, &mc) || !same(&env.a, &env.b) {
                return viol(
                    format!("after these calls: cursor {} want ({},{},lh {}); {}", show_cur(&c), mc.x, mc.y, mc.lh, show_diff(&env.a, &env.b)),
                    format!("clip {} start {}:{}", show_rect(&clip), show_cur(&start), log),
                );
            }
        }
        env.st.nontrivial(fnv(83, log.as_bytes()));
    }
    Ok(())
}
fn c08_random(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(82, idx);
    wipe_all(env);
    for i in 0..30 {
        let st = style(&mut r);
        let s = if r.chance(1, 2) { listed_text(&mut r, &env.ctx.model, &env.ctx.pools, st, 40) } else { text(&mut r, &env.ctx.model, &env.ctx.pools, 20) };
        let clip = on_screen(&mut r);
        let mut cur = if r.chance(3, 4) { near_cursor(&mut r, &clip) } else { any_cursor(&mut r, &clip) };
        // far away but not so far that counting up cannot be exact
        let lim = usize::MAX >> 4;
        cur.pt.y = cur.pt.y.min(lim);
        cur.line_height = cur.line_height.min(lim);
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "zeros"));
        }
        if s.len() > 0 {
            env.st.nontrivial(key(&clip, &cur, st, &s));
        }
        vs_model(env, &clip, &cur, st, &s, "zeros", true)?;
        wipe_all(env);
    }
    Ok(())
}
fn c08_far(env: &mut Env, idx: u64) -> Res {
    // cursors up to the largest representable values: exact where the exact result can be represented,
    // elsewhere the cursor still never moves up and no pixel shows up that layout does not put there
    let mut r = env.rng(84, idx);
    wipe_all(env);
    for i in 0..20 {
        let st = style(&mut r);
        let mut s = text(&mut r, &env.ctx.model, &env.ctx.pools, 12);
        if r.chance(1, 2) {
            s = s.chars().flat_map(|c| [c, '\n']).collect();
        }
        let clip = on_screen(&mut r);
        let mut cur = near_cursor(&mut r, &clip);
        let far = |r: &mut Rng| if r.chance(1, 3) { usize::MAX - r.usz(140) } else { extreme(r) };
        match r.below(5) {
            0 => cur.pt.x = far(&mut r),
            1 => cur.pt.y = far(&mut r),
            2 => cur.line_height = far(&mut r),
            3 => {
                cur.pt.y = far(&mut r);
                cur.line_height = usize::MAX - cur.pt.y;
                cur.line_height = cur.line_height.saturating_sub(r.usz(5)).saturating_add(r.usz(3));
            }
            _ => cur = Cursor::new(far(&mut r), far(&mut r), far(&mut r)),
        }
        if i == 0 {
            env.st.sample(|| show_call(&clip, &cur, st, &s, "zeros"));
        }
        env.st.evaluations += 1;
        env.st.nontrivial(key(&clip, &cur, st, &s));
        let (mut c, mut mc) = (cur, to_mcur(&cur));
        paint_str(&mut env.a, clip, &mut c, st, &s);
        env.ctx.model.paint(&mut env.b, &clip, &mut mc, st, &s, Match::Exact);
        let top = usize::MAX as u128;
        let fits = mc.x <= top && mc.y <= top && mc.lh <= top;
        let cok = if fits { cur_matches(&c, &mc) } else { c.pt.y >= cur.pt.y };
        if !fits {
            env.st.add("calls whose exact cursor cannot be represented", 1);
        }
        if !cok || !same(&env.a, &env.b) {
            let msg = format!("cursor {} want ({},{},lh {}); {}", show_cur(&c), mc.x, mc.y, mc.lh, show_diff(&env.a, &env.b));
            if env.ctx.model.collides(st, &s) {
                env.st.add("skipped: text with hash collision", 1);
            } else {
                return viol(msg, show_call(&clip, &cur, st, &s, "zeros"));
            }
        }
        wipe_all(env);
    }
    Ok(())
}
fn c08_clusters(env: &mut Env, idx: u64) -> Res {
    // advance and line height of every cluster in every style, alone and before a newline
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut s = String::new();
    wipe_all(env);
    for i in idx as usize * 64..(idx as usize * 64 + 64).min(ctx.pools.all.len()) {
        let (f, k) = ctx.pools.all[i];
        let e = &m.fonts[f].entries[k];
        for st in STYLES {
            s.clear();
            s.push_str(&e.text);
            vs_model(env, &full(), &Cursor::new(3, 0, 0), st, &s, "zeros", true)?;
            wipe(env, 0, 120);
            s.push('\n');
            vs_model(env, &rect(3, 0, 300, H), &Cursor::new(0, 0, 0), st, &s, "zeros", true)?;
            wipe(env, 0, 120);
        }
        env.st.nontrivial(i as u64);
    }
    Ok(())
}
pub fn c08(ctx: &Ctx) -> Check {
    let nw = ctx.pools.widths.len() as u64;
    let chunks = (ctx.pools.all.len() as u64 + 63) / 64;
    Check {
        id: "C08",
        rule: "one glyph of each width of each font x every right edge 1..=336 x every cursor column up to past the edge; all item sequences of length up to five x styles x incoming line heights x three rectangles; every cluster before a newline; lines of mixed styles; cursors and line heights up to the largest representable values; random; non-trivial: distinct calls on non-empty text; observed: cursor (x, y, line height) and frame buffer against the layout model",
        workloads: vec![
            Workload { name: "focus", quick: 400_000, thorough: 12_000_000, exhaustive: false, run: crate::fuzz::focus::<8> },
            Workload { name: "wrap", quick: nw * 12, thorough: nw * 12, exhaustive: true, run: c08_wrap },
            Workload { name: "lines", quick: 7u64.pow(5), thorough: 7u64.pow(5), exhaustive: true, run: c08_lines },
            Workload { name: "clusters", quick: chunks, thorough: chunks, exhaustive: true, run: c08_clusters },
            Workload { name: "styles", quick: 45_000, thorough: 1_800_000, exhaustive: false, run: c08_styles },
            Workload { name: "far", quick: 60_000, thorough: 2_400_000, exhaustive: false, run: c08_far },
            Workload { name: "random", quick: 60_000, thorough: 2_400_000, exhaustive: false, run: c08_random },
        ],
    }
}
