mod kzg_p;
mod out;
mod fri_p;
mod parse_p;
mod nova_p;
mod plonk_p;
mod rt;

use rt::Suite;
use std::sync::{Arc, Mutex};
use symcore::engine::Assignment;

fn suite() -> Suite {
    let mut s = Suite::default();
    kzg_p::add(&mut s);
    plonk_p::add(&mut s);
    parse_p::add(&mut s);
    fri_p::add(&mut s);
    nova_p::add(&mut s);
    s
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

/// Keys of hash maps come from here: fixed, so that runs are reproducible.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(151).wrapping_add(89);
    }
    len as isize
}

extern "C" {
    fn open(p: *const i8, fl: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // what the library prints is of no interest
    unsafe {
        let fd = open(c"/dev/null".as_ptr(), 1);
        dup2(fd, 1);
    }
    symcore::explore::install_panic_hook();
    let s = suite();
    match a.get(1).map(|x| x.as_str()) {
        Some("list") => {
            for x in &s.list {
                eprintln!("{} {} {}", x.prop, x.name, x.thorough_only);
            }
        }
        Some("run") => {
            let prop = arg(&a, "--prop").unwrap_or_default();
            let only = arg(&a, "--only");
            let thorough = arg(&a, "--tier").as_deref() == Some("thorough");
            let seed: u64 = arg(&a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let jobs: usize = arg(&a, "--jobs").and_then(|x| x.parse().ok()).unwrap_or(8);
            let budget: u64 = arg(&a, "--budget").and_then(|x| x.parse().ok()).unwrap_or(100_000);
            let t0 = std::time::Instant::now();
            let outp = arg(&a, "--out").expect("--out");
            let sel: Vec<rt::Scenario> = s
                .list
                .into_iter()
                .filter(|x| {
                    (prop.is_empty() || x.prop == prop)
                        && (thorough || !x.thorough_only)
                        && only.as_ref().map_or(true, |o| x.name.contains(o.as_str()))
                })
                .map(|mut x| {
                    x.cfg.seed = seed;
                    if thorough {
                        x.cfg.max_paths *= 4;
                        x.cfg.max_depth += 1;
                        x.cfg.max_secs *= 4;
                        x.cfg.query_ms *= 3;
                        x.cfg.max_flips *= 3;
                    }
                    x
                })
                .collect();
            let queue = Arc::new(Mutex::new(sel.into_iter().rev().collect::<Vec<_>>()));
            let done = Arc::new(Mutex::new(vec![]));
            let mut hs = vec![];
            for _ in 0..jobs {
                let (q, d) = (queue.clone(), done.clone());
                hs.push(std::thread::spawn(move || loop {
                    let mut sc = match q.lock().unwrap().pop() {
                        Some(s) => s,
                        None => break,
                    };
                    let left = budget.saturating_sub(t0.elapsed().as_secs());
                    sc.cfg.max_secs = sc.cfg.max_secs.min(left.max(1));
                    let r = symcore::explore::explore(&sc.cfg, sc.body.clone());
                    eprintln!("{}", out::brief(&r));
                    d.lock().unwrap().push(r);
                }));
            }
            for h in hs {
                h.join().unwrap();
            }
            let mut d = done.lock().unwrap();
            d.sort_by(|x, y| x.name.cmp(&y.name));
            std::fs::write(outp, out::report(&d)).unwrap();
        }
        Some("replay") => {
            // --scenario NAME --assign FILE (name fid limbs...) --salt N --out FILE
            let name = arg(&a, "--scenario").unwrap();
            let sc = s.list.into_iter().find(|x| x.name == name).expect("scenario");
            let mut asg = Assignment::default();
            for l in std::fs::read_to_string(arg(&a, "--assign").unwrap()).unwrap().lines() {
                let w: Vec<&str> = l.split_whitespace().collect();
                if w.len() < 3 {
                    continue;
                }
                asg.vals.insert(w[0].to_string(), symcore::field::from_dec(w[2]));
            }
            asg.salt = arg(&a, "--salt").and_then(|x| x.parse().ok()).unwrap_or(0);
            let seed: u64 = arg(&a, "--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
            let (st, panic) = symcore::explore::run_path(&sc.body, seed, asg);
            let mut o = String::new();
            if st.assume_failed {
                o.push_str("assume-failed\n");
            }
            for c in &st.checks {
                o.push_str(&format!("{} {}\n", if c.ok { "ok" } else { "FAIL" }, c.label));
            }
            if let Some(p) = panic {
                if !st.assume_failed {
                    o.push_str(&format!("FAIL no-panic ({p})\n"));
                }
            }
            std::fs::write(arg(&a, "--out").unwrap(), o).unwrap();
        }
        _ => {
            eprintln!("usage: harness list|run|replay");
            std::process::exit(2);
        }
    }
}
