//! Watches how deep the stack gets and what is allocated during calls of the library.
//! usage: stack KIND SEED N...     prints one line per call: what setting n bytes_of_stack allocations
use blitstr::{clear_region, demo, paint_str, ClipRect, Cursor, FrBuf, GlyphStyle};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering};

#[path = "../texts.rs"]
mod texts;
use texts::*;

static ALLOCS: AtomicU64 = AtomicU64::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCS.fetch_add(1, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

const WATCHED: usize = 4 << 20; // bytes of stack that are watched
const MARK: u64 = 0xA5C3_96F0_5AB4_1D2E;
const OWN: usize = 4096; // frames of this program

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize & !7
}
/// Mark the stack below the caller
#[inline(never)]
fn mark(top: usize) {
    let mut p = top - OWN;
    while p > top - WATCHED {
        p -= 8;
        unsafe { (p as *mut u64).write_volatile(MARK) };
    }
}
#[inline(never)]
fn depth(top: usize) -> usize {
    let mut p = top - WATCHED;
    while p < top - OWN {
        if unsafe { (p as *const u64).read_volatile() } != MARK {
            return top - p;
        }
        p += 8;
    }
    OWN
}
/// bytes of stack below here that f used, allocations it made
#[inline(never)]
fn watch(f: &mut dyn FnMut()) -> (usize, u64) {
    let top = here();
    mark(top);
    let a = ALLOCS.load(Ordering::Relaxed);
    f();
    let a = ALLOCS.load(Ordering::Relaxed) - a;
    (depth(top), a)
}

fn run(a: Vec<String>) {
    let (kind, seed) = (&a[1], a[2].parse::<u64>().unwrap());
    let mut fb: Box<FrBuf> = Box::new(blitstr::new_fr_buf());
    let show = |what: &str, setting: &str, n: usize, f: &mut dyn FnMut()| {
        use std::io::Write;
        // announced first: a call that exhausts the stack ends the process
        println!("call {} {} {}", what, setting, n);
        std::io::stdout().flush().unwrap();
        let (d, al) = watch(f);
        println!("used {} {} {} {} {}", what, setting, n, d, al);
    };
    for n in a[3..].iter().map(|s| s.parse::<usize>().unwrap()) {
        let s = text(kind, &mut R(seed), n);
        for (w, clip, cur, st) in settings() {
            let mut c = cur;
            show("paint_str", w, n, &mut || paint_str(&mut fb, clip, &mut c, st, &s));
            show("clear_region", w, n, &mut || clear_region(&mut fb, clip));
        }
    }
    // many calls with one cursor
    let s = text(kind, &mut R(seed), 40);
    let mut c = Cursor::new(0, 0, 0);
    show("paint_str_repeated", "from_top", 5000, &mut || {
        for i in 0..5000usize {
            paint_str(&mut fb, ClipRect::full_screen(), &mut c, GlyphStyle::from(i % 3), &s);
        }
    });
    for (w, f) in [("sample_text", demo::sample_text as fn(&mut FrBuf)), ("short_greeting", demo::short_greeting), ("goose_poem", demo::goose_poem)] {
        show("scene", w, 1, &mut || f(&mut fb));
    }
    let r = a.len();
    show("constructors", "all", r, &mut || {
        let c = ClipRect::new(r, r + 1, 3, 4);
        std::hint::black_box((Cursor::from_top_left_of(c), GlyphStyle::from(r), blitstr::glyph_to_height_hint(GlyphStyle::from(r)), c == ClipRect::padded_screen()));
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(a)).unwrap().join().unwrap();
}
