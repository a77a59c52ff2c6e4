//! conc run < plans     one plan per line; prints "ok i ..." or "FAIL i message" for each
//! conc plan PLAN...    the same for plans given as arguments (used under Miri)
mod exec;
mod plan;
mod sets;

use exec::{run, CounterK, FloatK, GaugeK, HistK, Stats, PROGRESS};
use std::io::BufRead;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn one(line: &str) -> Result<Stats, String> {
    let p = plan::parse(line);
    macro_rules! set {
        ($k:ty, $h:expr) => {
            match &*p.set {
                "enum" => run::<$k, sets::Enum>(&p, $h),
                "two" => run::<$k, sets::Two>(&p, $h),
                "clash" => run::<$k, sets::Clash>(&p, $h),
                "grow" => run::<$k, sets::Grow>(&p, $h),
                #[cfg(feature = "lasso")]
                "rodeo" => run::<$k, sets::Rodeo>(&p, $h),
                s => panic!("set {s}"),
            }
        };
    }
    match &*p.kind {
        "counter" => set!(CounterK, false),
        "gauge" => set!(GaugeK, false),
        "float" => set!(FloatK, false),
        "hist" => set!(HistK, true),
        s => panic!("kind {s}"),
    }
}

fn report(i: usize, r: Result<Stats, String>) -> bool {
    match r {
        Ok(s) => println!("ok {i} scrapes={} partial={} removed={} updates={}", s.scrapes, s.partial, s.removed, s.updates),
        Err(e) => {
            println!("FAIL {i} {}", e.replace('\n', "\\n"));
            return false;
        }
    }
    true
}

/// CPU time of this process in clock ticks.
#[cfg(not(miri))]
fn cpu() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    f.get(11..13).map_or(0, |f| f.iter().filter_map(|x| x.parse::<u64>().ok()).sum())
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    match args[0].as_str() {
        "plan" => {
            let mut ok = true;
            for (i, l) in args[1..].iter().enumerate() {
                ok &= report(i, one(l));
            }
            std::process::exit(if ok { 0 } else { 1 });
        }
        #[cfg(not(miri))]
        "run" => {
            let par: usize = args[1].parse().unwrap();
            let plans: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect();
            let next = AtomicUsize::new(0);
            let running: Vec<Mutex<Option<usize>>> = (0..par).map(|_| Mutex::new(None)).collect();
            let running = &*Box::leak(Box::new(running));
            std::thread::spawn(move || {
                // Threads of a plan do finite work. If no operation ends and no processor time is used for
                // long, they wait for each other; or, if much time is used, they spin.
                let (mut last, mut idle) = ((0, 0), 0);
                let (mut since, mut used) = (0, 0);
                loop {
                    std::thread::sleep(std::time::Duration::from_secs(1));
                    let now = (PROGRESS.load(Ordering::Relaxed), cpu());
                    let stuck = now.0 == last.0 && now.1 <= last.1 + 2;
                    idle = if stuck { idle + 1 } else { 0 };
                    (since, used) = if now.0 == last.0 { (since + 1, used + now.1 - last.1) } else { (0, 0) };
                    last = now;
                    if idle >= 20 || since >= 150 && used > 10_000 {
                        let r: Vec<usize> = running.iter().filter_map(|r| *r.lock().unwrap()).collect();
                        println!("DEADLOCK {r:?}");
                        std::process::exit(7);
                    }
                }
            });
            std::thread::scope(|s| {
                for w in 0..par {
                    let (next, plans) = (&next, &plans);
                    s.spawn(move || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let Some(l) = plans.get(i) else { return };
                        *running[w].lock().unwrap() = Some(i);
                        let r = one(l);
                        *running[w].lock().unwrap() = None;
                        report(i, r);
                    });
                }
            });
        }
        a => panic!("unknown command {a}"),
    }
}
