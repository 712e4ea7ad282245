//! Native replay of the assignments found by the symbolic engine, against the real build of the crates.
//!   vnat check TRACES THREADS   every "ok" path: run natively, compare the observables with the encoding
//!   vnat one JOB "v0 v1 ..."    run one assignment and say what happens
use std::cell::RefCell;
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicUsize, Ordering};

#[derive(Default)]
struct Rt {
    vals: Vec<u64>,
    pos: usize,
    hash: u64,
    verbose: bool,
    last: Option<u64>,
}
thread_local! {
    static RT: RefCell<Rt> = RefCell::new(Rt::default());
}
struct Fail(String);
struct Infeasible;

fn next() -> u64 {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let i = r.pos;
        r.pos += 1;
        r.vals.get(i).copied().unwrap_or(0)
    })
}
fn bytes(p: *const u8, n: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(p, n) }
}
#[unsafe(no_mangle)]
extern "C" fn sx_byte() -> u8 {
    next() as u8
}
#[unsafe(no_mangle)]
extern "C" fn sx_u32() -> u32 {
    next() as u32
}
#[unsafe(no_mangle)]
extern "C" fn sx_conc(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sx_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(Infeasible));
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sx_fail(p: *const u8, n: usize) {
    std::panic::resume_unwind(Box::new(Fail(String::from_utf8_lossy(bytes(p, n)).into_owned())));
}
#[unsafe(no_mangle)]
extern "C" fn sx_note(p: *const u8, n: usize) {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let mut h = r.hash;
        for x in bytes(p, n) {
            h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
        r.hash = h;
        if r.verbose {
            println!("note: {}", String::from_utf8_lossy(bytes(p, n)));
        }
    })
}
#[unsafe(no_mangle)]
extern "C" fn sx_show(p: *const u8, n: usize) {
    RT.with(|r| {
        if r.borrow().verbose {
            println!("show: {}", String::from_utf8_lossy(bytes(p, n)));
        }
    })
}
#[unsafe(no_mangle)]
extern "C" fn sx_cover(_id: u32) {}

fn run(job: u64, vals: Vec<u64>, verbose: bool) -> (String, u64) {
    RT.with(|r| *r.borrow_mut() = Rt { vals, pos: 0, hash: 0xcbf29ce484222325, verbose, last: None });
    let r = catch_unwind(AssertUnwindSafe(|| vprops::run(job)));
    let h = RT.with(|r| {
        let r = r.borrow();
        let _ = r.last;
        r.hash
    });
    match r {
        Ok(_) => ("ok".into(), h),
        Err(e) => {
            if let Some(f) = e.downcast_ref::<Fail>() {
                (format!("fail\t{}", f.0), h)
            } else if e.downcast_ref::<Infeasible>().is_some() {
                ("infeasible".into(), h)
            } else {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                (format!("panic\t{m}"), h)
            }
        }
    }
}

fn parse(s: &str) -> Vec<u64> {
    s.split_whitespace().map(|x| x.parse().unwrap()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("one") => {
            std::panic::set_hook(Box::new(|i| {
                println!("panic at {}: {}", i.location().map(|l| l.to_string()).unwrap_or_default(), i);
            }));
            let (o, _) = run(a[2].parse().unwrap(), parse(&a[3]), true);
            println!("outcome: {}", o.replace('\n', " "));
            std::process::exit(if o == "ok" { 0 } else { 3 });
        }
        Some("check") => {
            std::panic::set_hook(Box::new(|_| {}));
            let text = std::fs::read_to_string(&a[2]).unwrap();
            let threads: usize = a[3].parse().unwrap();
            let lines: Vec<&str> = text.lines().collect();
            let next = AtomicUsize::new(0);
            let (good, bad) = (AtomicUsize::new(0), AtomicUsize::new(0));
            std::thread::scope(|s| {
                for _ in 0..threads {
                    s.spawn(|| {
                        loop {
                            let b = next.fetch_add(256, Ordering::SeqCst);
                            if b >= lines.len() {
                                return;
                            }
                            for l in &lines[b..lines.len().min(b + 256)] {
                                let f: Vec<&str> = l.split('\t').collect();
                                if f[1] != "ok" {
                                    continue;
                                }
                                let (o, h) = run(f[0].parse().unwrap(), parse(f[3]), false);
                                if o == "ok" && format!("{h:016x}") == f[2] {
                                    good.fetch_add(1, Ordering::Relaxed);
                                } else {
                                    let n = bad.fetch_add(1, Ordering::Relaxed);
                                    if n < 20 {
                                        println!("mismatch\t{}\t{}\t{}", f[0], f[3], o.replace('\n', " "));
                                    }
                                }
                            }
                        }
                    });
                }
            });
            println!("summary\t{}\t{}", good.load(Ordering::SeqCst), bad.load(Ordering::SeqCst));
            let _ = std::io::stdout().flush();
        }
        Some("jobs") => {
            let v = vprops::jobs(a[2].parse().unwrap(), a[3].parse().unwrap());
            println!("{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        Some("conv") => {
            let mut c = vprops::std();
            for s in &a[2..] {
                match c.convert_with_global_state(s, vprops::MathDisplay::Inline) {
                    Ok(r) => println!("{}", r.mathml),
                    Err(e) => println!("error {}..{}: {}", e.0.start, e.0.end, e.error_message()),
                }
            }
        }
        _ => std::process::exit(2),
    }
}
