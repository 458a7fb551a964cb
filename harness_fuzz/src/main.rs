//! Coverage-guided workload: libFuzzer (clang's runtime) proposes bytes, vmon::fuzz turns them into calls, and
//! the oracle of the check named by VFUZZ_CHECK judges them.  Only the library is instrumented
//! (tools/sancov_rustc.sh).  A violation is written to VFUZZ_REPORT and ends the process.
#![no_main]
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;
use vmon::ctx::*;
use vmon::fuzz;
use vmon::gen::Pools;
use vmon::model::Model;

static CTX: OnceLock<(Ctx, String)> = OnceLock::new();
thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static ENV: std::cell::RefCell<Option<Env<'static>>> = std::cell::RefCell::new(None);
}

fn ctx() -> &'static (Ctx, String) {
    CTX.get_or_init(|| {
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("{}: {}", loc, msg));
        }));
        let model = Model::load(&std::fs::read(std::env::var("VFUZZ_MODEL").expect("VFUZZ_MODEL")).expect("model"));
        let pools = Pools::new(&model);
        (Ctx { model, pools, seed: 1, thorough: false }, std::env::var("VFUZZ_CHECK").expect("VFUZZ_CHECK"))
    })
}

#[no_mangle]
pub extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, len: usize) -> i32 {
    let data = if len == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(data, len) } };
    let (ctx, check) = ctx();
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        let env = e.get_or_insert_with(|| Env::new(ctx));
        let mut f = fuzz::decode(ctx, data);
        let shown = |f: &fuzz::Fuzz| fuzz::show(f);
        let r = catch_unwind(AssertUnwindSafe(|| fuzz::run(check, env, &mut f)));
        let (kind, msg, case) = match r {
            Ok(Ok(())) => return 0,
            Ok(Err(v)) => ("violation", v.msg, v.case),
            Err(_) => {
                let p = PANIC.with(|p| p.borrow().clone());
                // paths of the monitors' own packages; everything else is the library or called by it
                let own = p.starts_with("src/") || p.contains("/harness/src/") || p.contains("/harness_fuzz/src/");
                (if own { "harness" } else { "violation" }, format!("panic at {}", p), shown(&f))
            }
        };
        if let Ok(p) = std::env::var("VFUZZ_REPORT") {
            let _ = std::fs::write(p, format!("{}\n{}\n{}\n", kind, msg.replace('\n', " "), case));
        }
        eprintln!("{}: {}\n{}", kind, msg, case);
        std::process::exit(77);
    })
}
