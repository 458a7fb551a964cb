//! C12: results depend on the arguments alone
use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::util::*;
use blitstr::*;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone)]
pub struct Call {
    clip: ClipRect,
    cur: Cursor,
    st: GlyphStyle,
    text: String,
    bg: u32,
}
impl Call {
    fn show(&self) -> String {
        show_call(&self.clip, &self.cur, self.st, &self.text, &format!("all words {:#x}", self.bg))
    }
    fn args(&self) -> Vec<String> {
        let mut v: Vec<String> = [self.clip.min.x, self.clip.min.y, self.clip.max.x, self.clip.max.y, self.cur.pt.x, self.cur.pt.y, self.cur.line_height, self.st as usize, self.bg as usize]
            .iter()
            .map(|n| n.to_string())
            .collect();
        v.push(self.text.bytes().map(|b| format!("{:02x}", b)).collect());
        v
    }
    pub fn parse(a: &[String]) -> Call {
        let n: Vec<usize> = a[..9].iter().map(|s| s.parse().unwrap()).collect();
        let h = &a[9];
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        Call { clip: rect(n[0], n[1], n[2], n[3]), cur: Cursor::new(n[4], n[5], n[6]), st: GlyphStyle::from(n[7]), bg: n[8] as u32, text: String::from_utf8(b).unwrap() }
    }
    /// The result in this process: digest of frame buffer and cursor
    pub fn result(&self, fb: &mut FrBuf) -> u64 {
        fb.fill(self.bg);
        let mut c = self.cur;
        paint_str(fb, self.clip, &mut c, self.st, &self.text);
        digest_of(fb, &c)
    }
    /// The result in a process that does nothing else
    fn fresh(&self) -> Result<u64, String> {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let o = std::process::Command::new(exe).arg("fresh").args(self.args()).output().map_err(|e| format!("not started: {}", e))?;
        let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
        s.parse().map_err(|_| format!("{:?} {}", o.status, String::from_utf8_lossy(&o.stderr)))
    }
}
fn digest_of(fb: &FrBuf, c: &Cursor) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for w in fb.iter() {
        h = (h ^ *w as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    for v in [c.pt.x, c.pt.y, c.line_height] {
        h = (h ^ v as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
    h
}

fn same_len_char(r: &mut Rng, p: &Pools, m: &Model, c: char) -> char {
    for _ in 0..20 {
        let d = match c.len_utf8() {
            1 => (32 + r.below(95)) as u8 as char,
            3 => m.fonts[m.hanzi].entries[*r.pick(&p.by_font[m.hanzi])].text.chars().next().unwrap(),
            _ => {
                let e = &m.fonts[m.emoji].entries[*r.pick(&p.by_font[m.emoji])];
                e.text.chars().next().unwrap()
            }
        };
        if d.len_utf8() == c.len_utf8() {
            return d;
        }
    }
    c
}
fn family_text(r: &mut Rng, m: &Model, p: &Pools) -> String {
    let fam: &Vec<usize> = r.pick(&p.families);
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        s.push_str(&m.fonts[m.emoji].entries[*r.pick(fam)].text);
    }
    s
}
fn first_call(r: &mut Rng, m: &Model, p: &Pools) -> Call {
    let clip = on_screen(r);
    let text = match r.below(4) {
        0 => family_text(r, m, p),
        1 => listed_text(r, m, p, GlyphStyle::Regular, 6),
        _ => text(r, m, p, 6),
    };
    Call { clip, cur: near_cursor(r, &clip), st: style(r), text, bg: 0 }
}
/// The next call differs from the one before in few respects
fn mutate(r: &mut Rng, ctx: &Ctx, c: &mut Call) {
    let (m, p) = (&ctx.model, &ctx.pools);
    match r.below(16) {
        13 => {
            // numbers and strings that the sources mention, those new to them first
            let f = crate::fuzz::focused(ctx, r);
            let lim = usize::MAX >> 14;
            match r.below(4) {
                0 => c.text = f.text,
                1 => c.cur = Cursor::new(f.cur.pt.x, f.cur.pt.y.min(lim), f.cur.line_height.min(lim)),
                2 => c.clip = f.clip,
                _ => *c = Call { clip: f.clip, cur: Cursor::new(f.cur.pt.x, f.cur.pt.y.min(lim), f.cur.line_height.min(lim)), st: f.st, text: f.text, bg: c.bg },
            }
        }
        14 => c.text = c.text.repeat(r.range(2, 5)),
        0 => c.st = style(r),
        1 => {
            c.clip = on_screen(r);
        }
        2 => c.cur = near_cursor(r, &c.clip),
        3 => c.bg = *r.pick(&[0, !0, 0xffff0000, 0x5a5a5a5a]),
        4 | 5 => {
            // one character replaced by another of the same length
            let v: Vec<char> = c.text.chars().collect();
            if !v.is_empty() {
                let i = r.usz(v.len());
                let mut v = v;
                v[i] = same_len_char(r, p, m, v[i]);
                c.text = v.into_iter().collect();
            }
        }
        6 => {
            // two characters swapped
            let mut v: Vec<char> = c.text.chars().collect();
            if v.len() > 1 {
                let i = r.usz(v.len() - 1);
                v.swap(i, i + 1);
                c.text = v.into_iter().collect();
            }
        }
        7 | 8 => c.text = family_text(r, m, p),
        9 => {
            let mut v: Vec<char> = c.text.chars().collect();
            v.pop();
            c.text = v.into_iter().collect();
        }
        10 => piece(r, m, p, &mut c.text),
        11 => {
            c.cur.pt.x = (c.cur.pt.x + r.usz(3)).min(W + 50);
        }
        12 => c.cur.line_height = *r.pick(&[0usize, 24, 30, 32]),
        _ => c.text = text(r, m, p, 6),
    }
    if c.text.len() > 400 && !r.chance(1, 20) {
        c.text = text(r, m, p, 4);
    }
    if r.chance(1, 60) {
        *c = first_call(r, m, p);
    }
}
static ASKED: AtomicU64 = AtomicU64::new(0);
const MAX_ASK: u64 = 400;

/// Judge a result that is not what the model says: is it what a fresh process computes?
fn judge(env: &mut Env, call: &Call, got: u64, history: &str) -> Res {
    if ASKED.fetch_add(1, Ordering::Relaxed) >= MAX_ASK {
        env.st.add("differences not examined", 1);
        return Ok(());
    }
    match call.fresh() {
        Ok(f) if f == got => {
            env.st.add("differences from the model that a fresh process shows too", 1);
            Ok(())
        }
        Ok(_) => viol(format!("result differs from that of the same call in a fresh process ({})", history), call.show()),
        Err(e) => {
            env.st.add("fresh process failed", 1);
            env.st.sample(|| e);
            Ok(())
        }
    }
}
fn chain(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let (m, p) = (&ctx.model, &ctx.pools);
    let mut r = env.rng(121, idx);
    let mut call = first_call(&mut r, m, p);
    // texts always live in the same memory, so that equal addresses mean nothing
    let mut home = String::with_capacity(4096);
    // buffers at other addresses, at other distances from a page's start
    let mut others: Vec<Box<(Vec<u32>, FrBuf)>> = (0..3).map(|i| Box::new((vec![0; 1 + 7 * i], [0; blitstr::FRAME_BUF_SIZE]))).collect();
    let mut end: Option<(Cursor, Cursor)> = None;
    for i in 0..400 {
        mutate(&mut r, ctx, &mut call);
        match (end, r.below(12)) {
            // on from where the last call ended; there, but on a new line; back to where it began
            (Some((_, e)), 0) => call.cur = e,
            (Some((_, e)), 1) => call.cur = Cursor { line_height: *r.pick(&[0usize, 24, 30, 32]), ..e },
            (Some((b, _)), 2) => call.cur = b,
            _ => {}
        }
        home.clear();
        let at = if r.chance(1, 8) { r.usz(3) } else { 0 };
        home.push_str(&"   "[..at]);
        home.push_str(&call.text);
        env.a.fill(call.bg);
        let mut c = call.cur;
        let buf = r.usz(12);
        if buf < others.len() {
            others[buf].1.fill(call.bg);
            paint_str(&mut others[buf].1, call.clip, &mut c, call.st, &home[at..]);
            env.a.copy_from_slice(&others[buf].1);
        } else {
            paint_str(&mut env.a, call.clip, &mut c, call.st, &home[at..]);
        }
        env.b.fill(call.bg);
        let mut mc = to_mcur(&call.cur);
        m.paint(&mut env.b, &call.clip, &mut mc, call.st, &call.text, Match::Exact);
        env.st.evaluations += 1;
        if !same(&env.a, &env.b) || !cur_matches(&c, &mc) {
            let got = digest_of(&env.a, &c);
            judge(env, &call, got, &format!("call {} of chain {}", i, idx))?;
        }
        end = Some((call.cur, c));
        if r.chance(1, 40) {
            clear_region(&mut env.c, on_screen(&mut r));
        }
        if r.chance(1, 100) {
            // the other functions
            let v = crate::fuzz::focused(ctx, &mut r).raw;
            let q = ClipRect::new(v[0], v[1], v[2], v[3]);
            let (f, pd) = (ClipRect::full_screen(), ClipRect::padded_screen());
            let _ = std::hint::black_box((q == f, pd, Cursor::new(v[4], v[5], v[6]) == Cursor::from_top_left_of(q), GlyphStyle::from(v[0]), call.st as usize));
            if r.chance(1, 4) {
                std::hint::black_box(new_fr_buf());
            }
        }
        if r.chance(1, 400) {
            match r.below(3) {
                0 => demo::sample_text(&mut env.c),
                1 => demo::goose_poem(&mut env.c),
                _ => demo::short_greeting(&mut env.c),
            }
        }
        if i % 16 == 0 {
            env.st.nontrivial(key(&call.clip, &call.cur, call.st, &call.text));
        }
    }
    env.st.sample(|| format!("chain {} ends with {}", idx, call.show()));
    Ok(())
}
/// The same calls in one process after others, and each in a process of its own
fn fresh(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(122, idx);
    let mut call = first_call(&mut r, &env.ctx.model, &env.ctx.pools);
    call.clip = full();
    call.cur = Cursor::new(r.usz(200), r.usz(400), 0);
    if idx % 3 == 0 {
        call.st = STYLES[idx as usize / 3 % 3];
        call.text = ["A", "\u{1F638}", "\u{9D5D}", "\u{10FFFF}", "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}", "e\u{301}"][idx as usize / 9 % 6].into();
    }
    let got = call.result(&mut env.a);
    env.st.evaluations += 1;
    env.st.nontrivial(key(&call.clip, &call.cur, call.st, &call.text) ^ 1);
    match call.fresh() {
        Ok(f) if f == got => {
            env.st.add("calls repeated in a fresh process", 1);
            Ok(())
        }
        Ok(_) => viol("result differs from that of the same call in a fresh process", call.show()),
        Err(e) if e.starts_with("not started") => panic!("{}", e),
        Err(e) => viol(format!("the same call in a fresh process fails: {}", e), call.show()),
    }
}
/// Every cluster twice in a row, before and after other clusters, in changing styles
fn neighbours(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(123, idx);
    let n = ctx.pools.all.len();
    let mut home = String::with_capacity(256);
    for i in idx as usize * 64..(idx as usize * 64 + 64).min(n) {
        let (f, k) = ctx.pools.all[i];
        let fam = ctx.pools.families.iter().find(|v| f == m.emoji && v.contains(&k));
        for j in 0..6 {
            // the other text first
            let (of, ok) = match (j, fam) {
                (0..=2, Some(v)) => (f, *r.pick(v)),
                (3, _) => ctx.pools.all[(i + 1) % n],
                _ => *r.pick(&ctx.pools.all),
            };
            for (q, (tf, tk)) in [(of, ok), (f, k), (of, ok)].into_iter().enumerate() {
                home.clear();
                home.push_str(&m.fonts[tf].entries[tk].text);
                let st = STYLES[(i + j + q * r.usz(2)) % 3];
                let clip = full();
                let cur = Cursor::new(10, 10, 0);
                env.a.fill(0);
                env.b.fill(0);
                let mut c = cur;
                paint_str(&mut env.a, clip, &mut c, st, &home);
                let mut mc = to_mcur(&cur);
                m.paint(&mut env.b, &clip, &mut mc, st, &home, Match::Exact);
                env.st.evaluations += 1;
                if !same(&env.a, &env.b) || !cur_matches(&c, &mc) {
                    let call = Call { clip, cur, st, text: home.clone(), bg: 0 };
                    let got = digest_of(&env.a, &c);
                    judge(env, &call, got, "after another cluster in the same memory")?;
                }
            }
        }
        env.st.nontrivial(i as u64);
    }
    Ok(())
}
/// Clearing between other calls
fn clears(env: &mut Env, idx: u64) -> Res {
    let mut r = env.rng(124, idx);
    let mut last = on_screen(&mut r);
    for _ in 0..60 {
        if r.chance(1, 3) {
            last = on_screen(&mut r);
        } else {
            match r.below(4) {
                0 => last.min.x = r.usz(last.max.x),
                1 => last.min.y = r.usz(last.max.y),
                2 => last.max.x = r.range(last.min.x + 1, W),
                _ => last.max.y = r.range(last.min.y + 1, H),
            }
        }
        env.a.fill(0);
        env.b.fill(0);
        clear_region(&mut env.a, last);
        for y in last.min.y..last.max.y {
            for w in 0..WPL {
                env.b[y * WPL + w] |= colmask(w, last.min.x, last.max.x);
            }
        }
        env.st.evaluations += 1;
        if !same(&env.a, &env.b) {
            // the same call again: a result that a second call repeats is no matter of history
            let first: Vec<u32> = env.a.to_vec();
            let other = rect(0, 0, 1, 1);
            env.a.fill(0);
            clear_region(&mut env.a, other);
            env.a.fill(0);
            clear_region(&mut env.a, last);
            if env.a[..] != first[..] {
                return viol("clearing the same rectangle gives different results at different times", format!("clear_region(zeros, {})", show_rect(&last)));
            }
            env.st.add("differences that repeat", 1);
        }
    }
    env.st.nontrivial(idx | 1 << 50);
    Ok(())
}
/// Very many calls of one kind, then a battery of calls whose results must not have changed
fn marathon(env: &mut Env, idx: u64) -> Res {
    let ctx = env.ctx;
    let m = &ctx.model;
    let mut r = env.rng(125, idx / 8);
    // counts of all indices of one kind add up within the process
    let cheap: u64 = if ctx.thorough { (1 << 28) + (1 << 12) } else { 1 << 26 };
    let glyphs: u64 = if ctx.thorough { 1 << 24 } else { 1 << 22 };
    let st = STYLES[(idx / 8 % 3) as usize];
    let (text, n): (&str, u64) = match idx % 8 {
        0 => ("", cheap),
        1 => ("\n", cheap / 4),
        2 => ("a", glyphs),
        3 => ("\u{416}", glyphs / 2),
        4 => ("\u{1F638}", glyphs),
        5 => ("\u{9D5D}", glyphs),
        6 => ("clear", cheap / 4),
        _ => ("unusable rectangle", cheap / 16),
    };
    let mut calls: Vec<Call> = (0..40).map(|_| first_call(&mut r, m, &ctx.pools)).collect();
    for s in STYLES {
        for t in ["Ag", "\u{416}", "\u{1F638}\n", "\u{9D5D}", "e\u{301}\n\n"] {
            calls.push(Call { clip: full(), cur: Cursor::new(5, 5, 0), st: s, text: t.into(), bg: 0 });
        }
    }
    let before: Vec<u64> = calls.iter().map(|c| c.result(&mut env.a)).collect();
    let mut c = Cursor::new(0, 0, 0);
    for i in 0..n {
        match text {
            "clear" => clear_region(&mut env.c, rect((i % 300) as usize, 7, (i % 300) as usize + 1, 8)),
            "unusable rectangle" => paint_str(&mut env.c, rect(20, 20, 10, 10), &mut c, st, "abc"),
            _ => {
                // mostly above or below the screen: looked up and laid out but hardly painted
                c.pt.x = 0;
                c.pt.y = if i & 63 == 0 { 100 } else { 1 << 20 };
                paint_str(&mut env.c, full(), &mut c, st, std::hint::black_box(text));
            }
        }
    }
    env.st.add("calls between the batteries", n);
    for (call, want) in calls.iter().zip(before) {
        let got = call.result(&mut env.a);
        env.st.evaluations += 1;
        env.st.nontrivial(key(&call.clip, &call.cur, call.st, &call.text) ^ idx << 48);
        if got != want {
            return viol(format!("result after {} calls {:?} differs from that before", n, text), call.show());
        }
        // another thread may have been first to reach the state in question
        env.a.fill(call.bg);
        env.b.fill(call.bg);
        let (mut c, mut mc) = (call.cur, to_mcur(&call.cur));
        paint_str(&mut env.a, call.clip, &mut c, call.st, &call.text);
        m.paint(&mut env.b, &call.clip, &mut mc, call.st, &call.text, Match::Exact);
        if !same(&env.a, &env.b) || !cur_matches(&c, &mc) {
            let got = digest_of(&env.a, &c);
            judge(env, call, got, &format!("after {} calls {:?}", n, text))?;
        }
    }
    Ok(())
}
pub fn c12(ctx: &Ctx) -> Check {
    let chunks = (ctx.pools.all.len() as u64 + 63) / 64;
    Check {
        id: "C12",
        rule: "chains of calls, each differing from the one before in one respect (one character, style, rectangle, cursor, background), texts always at the same address, running in all threads at once; every cluster right after members of its own family; single calls repeated in fresh processes; calls repeated after up to 2^26 (thorough 2^32) others; non-trivial: distinct calls; observed: frame buffer and cursor of every call against the model, and where they differ against the same call in a fresh process",
        workloads: vec![
            Workload { name: "fresh", quick: 240, thorough: 3000, exhaustive: false, run: fresh },
            Workload { name: "neighbours", quick: chunks, thorough: chunks, exhaustive: false, run: neighbours },
            Workload { name: "clears", quick: 10_000, thorough: 240_000, exhaustive: false, run: clears },
            Workload { name: "chains", quick: 16_000, thorough: 1_800_000, exhaustive: false, run: chain },
            Workload { name: "marathon", quick: 24, thorough: 24 * 16, exhaustive: false, run: marathon },
        ],
    }
}
