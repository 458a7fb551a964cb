//! Shared types of the monitors: what a workload is, what it observed, what it found.
use crate::gen::Pools;
use crate::model::*;
use crate::rng::Rng;
use blitstr::{ClipRect, Cursor, FrBuf, GlyphStyle, FRAME_BUF_SIZE};
use std::collections::{BTreeMap, HashSet};

pub struct Ctx {
    pub model: Model,
    pub pools: Pools,
    pub seed: u64,
    pub thorough: bool,
}

#[derive(Debug, Clone)]
pub struct Viol {
    pub msg: String,
    pub case: String,
}
pub type Res = Result<(), Viol>;

pub fn viol<T>(msg: impl Into<String>, case: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { msg: msg.into(), case: case.into() })
}

const MAX_DISTINCT: usize = 400_000; // per thread; beyond this distinct cases are no longer counted

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub digest: u64,
    pub xor_digest: u64,
}
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// One evaluation that exercised something; key identifies the case
    pub fn nontrivial(&mut self, key: u64) {
        if self.distinct.len() < MAX_DISTINCT {
            self.distinct.insert(key);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
}

/// Per-thread working state
pub struct Env<'a> {
    pub ctx: &'a Ctx,
    pub st: Stats,
    pub a: Box<FrBuf>,
    pub b: Box<FrBuf>,
    pub c: Box<FrBuf>,
    pub d: Box<FrBuf>,
}
fn zeros() -> Box<FrBuf> {
    vec![0u32; FRAME_BUF_SIZE].into_boxed_slice().try_into().unwrap()
}
impl<'a> Env<'a> {
    pub fn new(ctx: &'a Ctx) -> Env<'a> {
        Env { ctx, st: Stats::default(), a: zeros(), b: zeros(), c: zeros(), d: zeros() }
    }
    pub fn rng(&self, stream: u64, idx: u64) -> Rng {
        Rng::new(self.ctx.seed, stream, idx)
    }
}

pub struct Workload {
    pub name: &'static str,
    /// number of indices to run: quick, thorough
    pub quick: u64,
    pub thorough: u64,
    /// does a full run enumerate its (finite) space completely?
    pub exhaustive: bool,
    pub run: fn(&mut Env, u64) -> Res,
}
pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub workloads: Vec<Workload>,
}

#[derive(Clone)]
pub struct Case {
    pub clip: ClipRect,
    pub cur: Cursor,
    pub st: GlyphStyle,
    pub text: String,
    pub bg: String,
}
impl Case {
    pub fn show(&self) -> String {
        show_call(&self.clip, &self.cur, self.st, &self.text, &self.bg)
    }
    pub fn key(&self) -> u64 {
        key(&self.clip, &self.cur, self.st, &self.text)
    }
}

pub fn show_text(s: &str) -> String {
    if s.chars().count() <= 400 {
        format!("\"{}\"", s.chars().map(|c| if c.is_ascii_graphic() && c != '"' && c != '\\' || c == ' ' { c.to_string() } else { format!("\\u{{{:X}}}", c as u32) }).collect::<String>())
    } else {
        let n = s.chars().count();
        let head: String = s.chars().take(60).collect();
        format!("{} ... ({} chars, {} bytes)", show_text(&head), n, s.len())
    }
}

pub fn show_call(clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str, bg: &str) -> String {
    format!(
        "paint_str(fb = {}, clip = {}, cursor = {}, {:?}, {})",
        bg,
        show_rect(clip),
        show_cur(cur),
        st,
        show_text(s)
    )
}
pub fn show_rect(c: &ClipRect) -> String {
    format!("ClipRect{{min:({},{}),max:({},{})}}", c.min.x, c.min.y, c.max.x, c.max.y)
}
pub fn show_cur(c: &Cursor) -> String {
    format!("Cursor{{x:{},y:{},line_height:{}}}", c.pt.x, c.pt.y, c.line_height)
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
pub fn key(clip: &ClipRect, cur: &Cursor, st: GlyphStyle, s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325;
    for v in [clip.min.x, clip.min.y, clip.max.x, clip.max.y, cur.pt.x, cur.pt.y, cur.line_height, st as usize] {
        h = (h ^ v as u64).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    fnv(h, s.as_bytes())
}

pub fn px(fb: &FrBuf, x: usize, y: usize) -> bool {
    fb[y * WPL + x / 32] >> (x % 32) & 1 == 1
}

/// Word mask of the columns x0..x1 in word w
pub fn colmask(w: usize, x0: usize, x1: usize) -> u32 {
    let (lo, hi) = (w * 32, w * 32 + 32);
    let (a, b) = (x0.max(lo), x1.min(hi));
    if a >= b {
        return 0;
    }
    let n = b - a;
    let m = if n == 32 { !0u32 } else { (1u32 << n) - 1 };
    m << (a - lo)
}

/// First differing pixel
pub fn first_diff(a: &FrBuf, b: &FrBuf) -> Option<(usize, usize)> {
    a.iter().zip(b.iter()).position(|(x, y)| x != y).map(|i| {
        let d = a[i] ^ b[i];
        ((i % WPL) * 32 + d.trailing_zeros() as usize, i / WPL)
    })
}
pub fn count_diff(a: &FrBuf, b: &FrBuf) -> u32 {
    a.iter().zip(b.iter()).map(|(x, y)| (x ^ y).count_ones()).sum()
}
pub fn show_diff(got: &FrBuf, want: &FrBuf) -> String {
    match first_diff(got, want) {
        None => "no difference".into(),
        Some((x, y)) => format!(
            "{} pixels differ, first at ({},{}): got {} want {}",
            count_diff(got, want),
            x,
            y,
            px(got, x, y) as u8,
            px(want, x, y) as u8
        ),
    }
}

/// First pixel that differs outside of the rectangle (padding columns 336..352 count as outside)
pub fn diff_outside(a: &FrBuf, b: &FrBuf, c: &ClipRect) -> Option<(usize, usize)> {
    for y in 0..H {
        let inside = y >= c.min.y && y < c.max.y;
        for w in 0..WPL {
            let i = y * WPL + w;
            let mut d = a[i] ^ b[i];
            if d != 0 {
                if inside {
                    d &= !colmask(w, c.min.x, c.max.x.min(W));
                }
                if d != 0 {
                    return Some((w * 32 + d.trailing_zeros() as usize, y));
                }
            }
        }
    }
    None
}

/// Quick test whether two buffers are equal
pub fn same(a: &FrBuf, b: &FrBuf) -> bool {
    a[..] == b[..]
}

pub fn to_mcur(c: &Cursor) -> MCur {
    MCur { x: c.pt.x as u128, y: c.pt.y as u128, lh: c.line_height as u128 }
}
pub fn cur_matches(c: &Cursor, m: &MCur) -> bool {
    c.pt.x as u128 == m.x && c.pt.y as u128 == m.y && c.line_height as u128 == m.lh
}
