mod driver;
mod proto;
mod text;
mod docs;
mod util;

mod sets;
mod hist;
mod p_vec;
mod p_encode;
mod p_histogram;
mod p_scalar;
mod p_text;

mod p_name;
mod p_dynamic;
mod mem;
mod p_mem;
mod p_callback;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

use driver::*;
use std::sync::atomic::Ordering;

fn properties() -> Vec<Property> {
    vec![
        p_vec::c01(), p_vec::c02(), p_vec::c03(), p_encode::c04(), p_histogram::c05(), p_histogram::c06(), p_histogram::c07(), p_scalar::c08(), p_text::c09(), p_text::c10(), p_text::c11(), p_text::c12(), p_name::c13(), p_dynamic::c23(), p_mem::c24(), p_callback::c25(),

    ]
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    // Watchdog: cases take milliseconds, so one that does not end in minutes never does.
    std::thread::spawn(|| {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now == last { idle += 5 } else { idle = 0 }
            last = now;
            if idle >= 150 {
                eprintln!("HANG: no case has ended for {idle} s");
                std::process::exit(6);
            }
        }
    });
    let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in properties() { println!("{}", p.id) }
        }
        Some("run") => {
            let id = &args[1];
            let tier = opt("--tier").unwrap_or("quick".into());
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let replay_dir = opt("--replay-dir").unwrap_or(".".into());
            let prop = properties().into_iter().find(|p| p.id == id).expect("no such property");
            let arm = opt("--arm");
            let (ev, failures, known) = run_property(&prop, &tier, seed, arm.as_deref());
            if let Some(f) = opt("--evidence") {
                std::fs::write(f, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
            } else {
                println!("{}", serde_json::to_string_pretty(&ev).unwrap());
            }
            for (k, n) in &known {
                println!("KNOWN {k} ({n} cases)");
            }
            for (arm, f) in &failures {
                std::fs::create_dir_all(&replay_dir).unwrap();
                let path = format!("{replay_dir}/{id}-{arm}-{seed}.json");
                let js = serde_json::json!({"kind": "pbt", "property": id, "arm": arm, "seed": seed, "message": f.msg, "case": f.case});
                std::fs::write(&path, serde_json::to_string_pretty(&js).unwrap()).unwrap();
                println!("FAIL arm={arm} shrinks={} replay={path}", f.shrinks);
                println!("  {}", f.msg.replace('\n', "\n  "));
                println!("  case: {}", { let s = f.case.to_string(); s.chars().take(1500).collect::<String>() });
            }
            std::process::exit(if failures.is_empty() { 0 } else { 1 });
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            let arm = v["arm"].as_str().unwrap();
            let prop = properties().into_iter().find(|p| p.id == id).expect("no such property");
            let arm = prop.arms.iter().find(|a| a.name == arm).expect("no such arm");
            match arm.replay(&v["case"]) {
                Ok((Ok(()), _)) => println!("passes"),
                Ok((Err(m), _)) => { println!("FAIL {m}"); std::process::exit(1) }
                Err(e) => { eprintln!("cannot decode case: {e}"); std::process::exit(4) }
            }
        }
        _ => { eprintln!("usage: pbt run ID | replay FILE | list"); std::process::exit(2) }
    }
}
