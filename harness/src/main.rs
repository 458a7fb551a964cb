//! Runs the workloads of one check on all cores and writes what was observed.
//!
//!   vmon run CHECK --model M --out O.json [--seed N] [--tier T] [--threads N] [--journal F] [--only W] [--scale PERCENT] [--digests F]
//!   vmon one CHECK WORKLOAD INDEX --model M [--seed N] [--tier T]
//!   vmon list CHECK --model M
//!   vmon witnesses FILE --model M       (listed findings: do they still reproduce?)
//!   vmon scene NAME --model M --out F   (frame buffer of a demo scene)
//!   vmon fresh ...                      (one call, for C12)
//!
//! Exit status of run: 0 done (violations are in the output), 86 no progress, 3 error of the harness.
use std::collections::BTreeMap;
use std::fs::OpenOptions;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use vmon::checks;
use vmon::ctx::*;
use vmon::gen::Pools;
use vmon::model::Model;

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Found {
    w: usize,
    idx: u64,
    v: Viol,
    harness: bool,
}

fn run_one(env: &mut Env, w: &Workload, idx: u64) -> Result<(), (Viol, bool)> {
    match catch_unwind(AssertUnwindSafe(|| (w.run)(env, idx))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(v)) => Err((v, false)),
        Err(_) => {
            let p = PANIC.with(|p| p.borrow().clone());
            // paths of this package are relative, those of the library are absolute
            let harness = p.starts_with("src/") || p.contains("/harness/src/");
            Err((Viol { msg: format!("panic at {}", p), case: format!("workload {} index {}", w.name, idx) }, harness))
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "fresh" {
        let call = checks::d::Call::parse(&args[2..]);
        let mut fb = Box::new([0u32; blitstr::FRAME_BUF_SIZE]);
        println!("{}", call.result(&mut fb));
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{}: {}", loc, msg));
    }));
    let mut pos = vec![];
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 1;
    while i < args.len() {
        if let Some(k) = args[i].strip_prefix("--") {
            opt.insert(k.into(), args[i + 1].clone());
            i += 2;
        } else {
            pos.push(args[i].clone());
            i += 1;
        }
    }
    let seed: u64 = opt.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt.get("tier").map(|t| t == "thorough").unwrap_or(false);
    let data = std::fs::read(&opt["model"]).expect("model");
    let model = Model::load(&data);
    let pools = Pools::new(&model);
    let ctx = Ctx { model, pools, seed, thorough };
    if pos[0] == "scene" {
        let mut fb = blitstr::new_fr_buf();
        match pos[1].as_str() {
            "sample_text" => blitstr::demo::sample_text(&mut fb),
            "goose_poem" => blitstr::demo::goose_poem(&mut fb),
            _ => blitstr::demo::short_greeting(&mut fb),
        }
        std::fs::write(&opt["out"], fb.iter().flat_map(|w| w.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
        return;
    }
    if pos[0] == "foreign" {
        let ctx: &Ctx = &ctx;
        let lines = vmon::checks::c::foreign(&mut Env::new(ctx), pos[1].parse().unwrap());
        std::fs::write(&opt["out"], lines.join("\n") + "\n").unwrap();
        return;
    }
    if pos[0] == "witnesses" {
        // lines: NAME "FONT HEX-HEX.."; is the text's painting still explained by comparing hashes only?
        let ctx: &Ctx = &ctx;
        for l in std::fs::read_to_string(&pos[1]).unwrap().lines() {
            let f: Vec<&str> = l.split(' ').collect();
            let s: String = f[1].split('-').map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect();
            let st = (0..3).find(|i| ctx.model.fonts[ctx.model.latin[*i]].name == f[0]).map(|i| vmon::model::STYLES[i]).unwrap_or(blitstr::GlyphStyle::Regular);
            let mut env = Env::new(ctx);
            let (clip, cur) = (vmon::util::full(), blitstr::Cursor::new(7, 5, 0));
            let r = std::panic::catch_unwind(AssertUnwindSafe(|| vmon::util::vs_model(&mut env, &clip, &cur, st, &s, "zeros", true)));
            let n = env.st.counters.len();
            match r {
                Ok(Ok(())) if n == 0 => println!("gone {}", l),
                Ok(Ok(())) => println!("reproduces {}", l),
                Ok(Err(v)) => println!("other {} {} {}", l, v.msg, v.case),
                Err(_) => println!("other {} panic {}", l, PANIC.with(|p| p.borrow().clone())),
            }
        }
        return;
    }
    if pos[0] == "collisions" {
        std::thread::scope(|sc| {
            for t in 0..8 {
                let m = &ctx.model;
                sc.spawn(move || {
                    for f in [m.emoji, m.latin[0], m.latin[1], m.latin[2]] {
                        for (s, e) in m.fonts[f].colliding_pairs(t, 8) {
                            println!("{} {} {}", m.fonts[f].name, show_text(&s), show_text(&m.fonts[f].entries[e].text));
                        }
                    }
                });
            }
        });
        return;
    }
    let check = checks::find(&pos[1], &ctx).expect("unknown check");
    match pos[0].as_str() {
        "list" => {
            for w in &check.workloads {
                println!("{} {} {}", w.name, w.quick, w.thorough);
            }
        }
        "one" => {
            let w = check.workloads.iter().find(|w| w.name == pos[2]).expect("workload");
            let idx: u64 = pos[3].parse().unwrap();
            let mut env = Env::new(&ctx);
            match run_one(&mut env, w, idx) {
                Ok(()) => println!("OK {} evaluations", env.st.evaluations),
                Err((v, h)) => {
                    println!("{}\n{}\n{}", if h { "HARNESS" } else { "FAIL" }, v.msg, v.case);
                    std::process::exit(if h { 3 } else { 1 });
                }
            }
        }
        "run" => run(&ctx, &check, &opt),
        _ => std::process::exit(2),
    }
}

fn run(ctx: &Ctx, check: &Check, opt: &BTreeMap<String, String>) {
    let threads: usize = opt.get("threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale: u64 = opt.get("scale").and_then(|s| s.parse().ok()).unwrap_or(100);
    let only: Option<Vec<&str>> = opt.get("only").map(|o| o.split(',').collect());
    let journal = opt.get("journal").map(|p| OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap());
    let stall: u64 = opt.get("stall").and_then(|s| s.parse().ok()).unwrap_or(40);
    let sizes: Vec<u64> = check
        .workloads
        .iter()
        .map(|w| {
            if let Some(o) = &only {
                if !o.contains(&w.name) {
                    return 0;
                }
            }
            let n = if ctx.thorough { w.thorough } else { w.quick };
            if scale == 100 { n } else { (n * scale / 100).max(1) }
        })
        .collect();
    // global order of work: workload after workload
    let total: u64 = sizes.iter().sum();
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX); // lowest global number with a violation
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let merged: Mutex<(Stats, Vec<(u64, u64, u64)>)> = Mutex::new((Stats::default(), vec![]));
    let beats: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let want_digests = opt.contains_key("digests");
    let locate = |mut g: u64| {
        for (w, n) in sizes.iter().enumerate() {
            if g < *n {
                return (w, g);
            }
            g -= n;
        }
        unreachable!()
    };
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (next, best, found, merged, beats, journal, locate, sizes) = (&next, &best, &found, &merged, &beats, &journal, &locate, &sizes);
            hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || {
                let mut env = Env::new(ctx);
                let mut digests = vec![];
                let mut last_w = usize::MAX;
                loop {
                    let g = next.fetch_add(1, Ordering::Relaxed);
                    if g >= total || g > best.load(Ordering::Relaxed) {
                        break;
                    }
                    let (w, mut idx) = locate(g);
                    if scale < 100 && sizes[w] > 1 {
                        // spread over the whole workload
                        let full = if ctx.thorough { check.workloads[w].thorough } else { check.workloads[w].quick };
                        idx = idx * full / sizes[w];
                    }
                    if w != last_w {
                        last_w = w;
                        env.a.fill(0);
                        env.b.fill(0);
                    }
                    beats[t].store(g + 1, Ordering::Relaxed);
                    if let Some(j) = journal {
                        let mut b = [0u8; 16];
                        b[..8].copy_from_slice(&(w as u64 + 1).to_le_bytes());
                        b[8..].copy_from_slice(&idx.to_le_bytes());
                        let _ = j.write_at(&b, t as u64 * 16);
                    }
                    env.st.digest = 0;
                    let res = run_one(&mut env, &check.workloads[w], idx);
                    if want_digests {
                        digests.push((g, idx, env.st.digest));
                    }
                    if let Err((v, harness)) = res {
                        env.a.fill(0);
                        env.b.fill(0);
                        let mut f = found.lock().unwrap();
                        if g < best.load(Ordering::Relaxed) {
                            best.store(g, Ordering::Relaxed);
                            *f = Some(Found { w, idx, v, harness });
                        }
                    }
                }
                beats[t].store(u64::MAX, Ordering::Relaxed);
                if let Some(j) = journal {
                    let _ = j.write_at(&[0u8; 16], t as u64 * 16);
                }
                let mut m = merged.lock().unwrap();
                m.0.evaluations += env.st.evaluations;
                m.0.xor_digest ^= env.st.xor_digest;
                for (k, n) in &env.st.counters {
                    *m.0.counters.entry(k).or_insert(0) += n;
                }
                m.0.distinct.extend(env.st.distinct.iter());
                m.0.samples.extend(env.st.samples.drain(..));
                m.1.extend(digests);
            }).unwrap());
        }
        // watchdog: a thread that makes no progress for long, in CPU time of the whole process
        let (beats, done) = (&beats, &done);
        sc.spawn(move || {
            let mut last: Vec<(u64, std::time::Instant)> = beats.iter().map(|b| (b.load(Ordering::Relaxed), std::time::Instant::now())).collect();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for (t, b) in beats.iter().enumerate() {
                    let v = b.load(Ordering::Relaxed);
                    if v != last[t].0 {
                        last[t] = (v, std::time::Instant::now());
                    } else if v != u64::MAX && last[t].1.elapsed().as_secs() > stall {
                        eprintln!("no progress in thread {}", t);
                        std::process::exit(86);
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let (st, mut digests) = merged.into_inner().unwrap();
    if let Some(p) = opt.get("digests") {
        digests.sort();
        let mut o = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        for (g, i, d) in digests {
            let (w, _) = locate(g);
            writeln!(o, "{} {} {:016x}", check.workloads[w].name, i, d).unwrap();
        }
    }
    let mut o = String::from("{\n");
    o += &format!(" \"check\": {}, \"rule\": {}, \"seed\": {},\n", js(check.id), js(check.rule), ctx.seed);
    o += &format!(" \"evaluations\": {}, \"distinct_nontrivial\": {}, \"digest\": \"{:016x}\",\n", st.evaluations, st.distinct.len(), st.xor_digest);
    o += " \"counters\": {";
    o += &st.counters.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    o += "},\n \"workloads\": [";
    o += &check
        .workloads
        .iter()
        .zip(&sizes)
        .filter(|(_, n)| **n > 0)
        .map(|(w, n)| format!("{{\"name\": {}, \"indices\": {}, \"exhaustive\": {}}}", js(w.name), n, w.exhaustive && scale == 100))
        .collect::<Vec<_>>()
        .join(", ");
    o += "],\n \"samples\": [";
    let mut smp: Vec<&String> = st.samples.iter().collect();
    smp.sort();
    smp.truncate(8);
    o += &smp.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    o += "],\n \"violation\": ";
    match found.into_inner().unwrap() {
        None => o += "null",
        Some(f) => {
            o += &format!(
                "{{\"workload\": {}, \"index\": {}, \"message\": {}, \"case\": {}, \"harness\": {}}}",
                js(check.workloads[f.w].name),
                f.idx,
                js(&f.v.msg),
                js(&f.v.case),
                f.harness
            )
        }
    }
    o += "\n}\n";
    std::fs::write(&opt["out"], o).unwrap();
}
