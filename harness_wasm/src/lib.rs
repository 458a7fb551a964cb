//! The monitors of one check, driven from JavaScript: the library compiled to 32-bit WebAssembly.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use vmon::checks;
use vmon::ctx::*;
use vmon::gen::Pools;
use vmon::model::Model;

static MSG: Mutex<String> = Mutex::new(String::new());
static mut CTX: Option<(&'static Ctx, Check, Env<'static>)> = None;

#[no_mangle]
pub extern "C" fn give(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}
#[no_mangle]
pub extern "C" fn setup(model: *const u8, n: usize, seed: u32, thorough: u32, check: u32) {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        *MSG.lock().unwrap() = format!("panic at {}: {}", loc, msg);
    }));
    let data = unsafe { std::slice::from_raw_parts(model, n) };
    let model = Model::load(data);
    let pools = Pools::new(&model);
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx { model, pools, seed: seed as u64, thorough: thorough != 0 }));
    let c = checks::find(&format!("C{:02}", check), ctx).unwrap();
    unsafe { CTX = Some((ctx, c, Env::new(ctx))) };
}
#[allow(static_mut_refs)]
fn st() -> &'static mut (&'static Ctx, Check, Env<'static>) {
    unsafe { CTX.as_mut().unwrap() }
}
#[no_mangle]
pub extern "C" fn workloads() -> usize {
    st().1.workloads.len()
}
#[no_mangle]
pub extern "C" fn size(w: usize) -> u32 {
    let s = st();
    (if s.0.thorough { s.1.workloads[w].thorough } else { s.1.workloads[w].quick }) as u32
}
/// 0: held, 1: violated
#[no_mangle]
pub extern "C" fn run(w: usize, idx: u32) -> u32 {
    let s = st();
    s.2.st.digest = 0;
    let f = s.1.workloads[w].run;
    match catch_unwind(AssertUnwindSafe(|| f(&mut s.2, idx as u64))) {
        Ok(Ok(())) => 0,
        Ok(Err(v)) => {
            *MSG.lock().unwrap() = format!("{}\n{}", v.msg, v.case);
            1
        }
        Err(_) => 1,
    }
}
#[no_mangle]
pub extern "C" fn digest_lo() -> u32 {
    st().2.st.digest as u32
}
#[no_mangle]
pub extern "C" fn digest_hi() -> u32 {
    (st().2.st.digest >> 32) as u32
}
#[no_mangle]
pub extern "C" fn evaluations() -> f64 {
    st().2.st.evaluations as f64
}
#[no_mangle]
pub extern "C" fn distinct() -> f64 {
    st().2.st.distinct.len() as f64
}
#[no_mangle]
pub extern "C" fn name_ptr(w: usize) -> *const u8 {
    st().1.workloads[w].name.as_ptr()
}
#[no_mangle]
pub extern "C" fn name_len(w: usize) -> usize {
    st().1.workloads[w].name.len()
}
#[no_mangle]
pub extern "C" fn msg_ptr() -> *const u8 {
    MSG.lock().unwrap().as_ptr()
}
#[no_mangle]
pub extern "C" fn msg_len() -> usize {
    MSG.lock().unwrap().len()
}
