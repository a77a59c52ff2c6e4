//! C21, C22, C24 and C25: collectors of process and runtime metrics.
#[path = "../../pbt/src/driver.rs"]
#[allow(dead_code)]
mod driver;
#[path = "../../pbt/src/proto.rs"]
#[allow(dead_code)]
mod proto;
#[path = "../../pbt/src/text.rs"]
#[allow(dead_code)]
mod text;
#[path = "../../pbt/src/util.rs"]
#[allow(dead_code)]
mod util;
#[path = "../../pbt/src/mem.rs"]
mod mem;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

mod callbacks;
mod child;
mod leaves;
mod p_process;
mod p_tokio;

use driver::*;
use std::sync::atomic::Ordering;

fn properties() -> Vec<Property> {
    vec![p_process::c21(), p_tokio::c22(), leaves::c24(), callbacks::c25()]
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("child") => return child::serve(),
        Some("peek") => return p_process::peek(),
        Some("burn") => return child::burn(args[1].parse().unwrap(), args[2].parse().unwrap()),
        _ => {}
    }
    install_hook();
    std::thread::spawn(|| {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last { idle += 5 } else { idle = 0 }
            last = now;
            if idle >= 200 {
                eprintln!("HANG: no case has ended for {idle} s");
                std::process::exit(6);
            }
        }
    });
    let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    match args.first().map(|s| s.as_str()) {
        Some("run") => {
            let id = &args[1];
            let tier = opt("--tier").unwrap_or("quick".into());
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let replay_dir = opt("--replay-dir").unwrap_or(".".into());
            let prop = properties().into_iter().find(|p| p.id == id).expect("no such property");
            let arm = opt("--arm");
            let (ev, failures, known) = run_property(&prop, &tier, seed, arm.as_deref());
            if let Some(f) = opt("--evidence") {
                std::fs::write(f, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
            } else {
                println!("{}", serde_json::to_string_pretty(&ev).unwrap());
            }
            for (k, n) in &known {
                println!("KNOWN {k} ({n} cases)");
            }
            for (arm, f) in &failures {
                std::fs::create_dir_all(&replay_dir).unwrap();
                let path = format!("{replay_dir}/{id}-{arm}-{seed}.json");
                let js = serde_json::json!({"kind": "sys", "property": id, "arm": arm, "seed": seed, "message": f.msg, "case": f.case});
                std::fs::write(&path, serde_json::to_string_pretty(&js).unwrap()).unwrap();
                println!("FAIL arm={arm} shrinks={} replay={path}", f.shrinks);
                println!("  {}", f.msg.replace('\n', "\n  "));
                println!("  case: {}", { let s = f.case.to_string(); s.chars().take(1500).collect::<String>() });
            }
            std::process::exit(if failures.is_empty() { 0 } else { 1 });
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let arm = v["arm"].as_str().unwrap();
            let prop = properties().into_iter().find(|p| p.id == id).expect("no such property");
            let arm = prop.arms.iter().find(|a| a.name == arm).expect("no such arm");
            let (r, _) = arm.replay(&v["case"]).unwrap();
            match r {
                Ok(()) => println!("held"),
                Err(e) => { println!("{e}"); std::process::exit(1) }
            }
        }
        a => panic!("unknown command {a:?}"),
    }
}
