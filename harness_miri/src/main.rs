//! Calls the demo's exported functions in several orders and reads the whole frame buffer through the
//! exported pointer each time.  Runs natively and under Miri.
extern crate demo;
extern "C" {
    fn init();
    fn frame_buf_ptr() -> *const u32;
}
const N: usize = 536 * 11;

fn look() -> u64 {
    let p = unsafe { frame_buf_ptr() };
    assert!(!p.is_null() && p as usize % 4 == 0, "VIOLATED: pointer {:?} is not aligned", p);
    let mut h = 0xcbf29ce484222325u64;
    for i in 0..N {
        // every word of the frame buffer is read, the padding columns are not judged
        let w = unsafe { p.add(i).read() };
        let w = if i % 11 == 10 { w & 0xFFFF } else { w };
        h = (h ^ w as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

fn main() {
    let order = std::env::args().nth(1).unwrap_or("lipliil".into());
    let mut seen = vec![];
    let mut inited = false;
    for c in order.chars() {
        match c {
            'i' => {
                unsafe { init() };
                inited = true;
            }
            'p' => {
                unsafe { frame_buf_ptr() };
            }
            _ => {
                let h = look();
                if inited {
                    seen.push(h);
                }
            }
        }
    }
    println!("order {} words read {}", order, order.matches('l').count() * N);
    for h in &seen {
        println!("screen {:016x}", h);
    }
    assert!(seen.windows(2).all(|w| w[0] == w[1]), "VIOLATED: the screen differs between initialisations");
}
