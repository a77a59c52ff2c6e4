//! C21: process metrics describe the monitored process.
use crate::driver::*;
use crate::text;
use crate::util::show;
use measured::text::BufferedTextEncoder;
use measured::MetricGroup;
use measured_process::ProcessCollector;
use measured_prometheus_protobuf::ProtoEncoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

type Values = BTreeMap<String, i64>;

/// What /proc says of a process; what cannot be read is left out.
fn proc(pid: i32) -> Option<Values> {
    let dir = format!("/proc/{pid}");
    let stat = std::fs::read(format!("{dir}/stat")).ok()?;
    let close = stat.iter().rposition(|b| *b == b')')?;
    let f: Vec<String> = String::from_utf8_lossy(&stat[close + 1..]).split_whitespace().map(str::to_owned).collect();
    // f[0] is the state, the third field of the file
    let field = |n: usize| f[n - 3].parse::<i64>().unwrap();
    let tick = unsafe { libc::sysconf(libc::_SC_CLK_TCK) };
    let page = unsafe { libc::sysconf(libc::_SC_PAGESIZE) };
    let mut v = Values::new();
    v.insert("virtual_memory_bytes".into(), field(23));
    v.insert("resident_memory_bytes".into(), field(24) * page);
    v.insert("cpu_seconds_total".into(), (field(14) + field(15)) / tick);
    v.insert("threads".into(), field(20));
    let boot: i64 = std::fs::read_to_string("/proc/stat").ok()?.lines().find_map(|l| l.strip_prefix("btime ")).unwrap().trim().parse().unwrap();
    v.insert("start_time_seconds".into(), boot + field(22) / tick);
    if let Ok(status) = std::fs::read_to_string(format!("{dir}/status")) {
        if let Some(kb) = status.lines().find_map(|l| l.strip_prefix("VmSize:")) {
            let kb: i64 = kb.trim().trim_end_matches(" kB").parse().unwrap();
            if kb * 1024 != field(23) {
                v.remove("virtual_memory_bytes"); // it is changing
            }
        }
    }
    if let Ok(d) = std::fs::read_dir(format!("{dir}/fd")) {
        let n: Result<Vec<_>, _> = d.collect();
        if let Ok(n) = n {
            v.insert("open_fds".into(), n.len() as i64);
        }
    } else if let Ok(m) = std::fs::metadata(format!("{dir}/fd")) {
        // who may not read the directory may still see its size, which is their number since Linux 6.2
        if m.len() > 0 {
            v.insert("open_fds".into(), m.len() as i64);
        }
    }
    if let Ok(l) = std::fs::read_to_string(format!("{dir}/limits")) {
        if let Some(l) = l.lines().find_map(|l| l.strip_prefix("Max open files")) {
            let soft = l.split_whitespace().next().unwrap();
            if soft != "unlimited" {
                v.insert("max_fds".into(), soft.parse().unwrap());
            }
        }
    }
    Some(v)
}

#[derive(measured::MetricGroup)]
#[metric(new(pid: i32))]
struct App {
    #[metric(namespace = "process")]
    #[metric(init = ProcessCollector::new(pid))]
    process: ProcessCollector,
}

const NAMES: [&str; 7] = ["open_fds", "max_fds", "virtual_memory_bytes", "resident_memory_bytes", "cpu_seconds_total", "threads", "start_time_seconds"];

/// A scrape of either a bare collector or one with the prefix.
fn scrape(c: &impl MetricGroup<BufferedTextEncoder>, prefix: &str) -> Result<Values, String> {
    let mut enc = BufferedTextEncoder::new();
    c.collect_group_into(&mut enc).map_err(|e| format!("error {e}"))?;
    let doc = enc.finish();
    let mut v = Values::new();
    for f in text::parse(&doc, true)? {
        let name = f.name.strip_prefix(prefix).unwrap_or("?").to_owned();
        if !NAMES.contains(&name.as_str()) {
            continue; // something more is not judged
        }
        if f.samples.len() != 1 || f.samples[0].name != f.name || !f.samples[0].labels.is_empty() || f.help.as_deref().unwrap_or("").is_empty() {
            return Err(format!("family {name} is not one sample without labels, with a help text:\n{}", show(&doc)));
        }
        let n = f.samples[0].value.parse().map_err(|_| format!("{name} is {:?}", f.samples[0].value))?;
        if v.insert(name.clone(), n).is_some() {
            return Err(format!("{name} is exported twice"));
        }
    }
    Ok(v)
}
fn scrape_proto(c: &impl MetricGroup<ProtoEncoder<Vec<u8>>>) -> Result<Values, String> {
    let mut enc = ProtoEncoder::new(Vec::new());
    c.collect_group_into(&mut enc).map_err(|e| format!("error {e}"))?;
    enc.flush().unwrap();
    let mut v = Values::new();
    for f in crate::proto::decode(&enc.writer)? {
        let name = f.name.clone().unwrap_or_default();
        if !NAMES.contains(&name.as_str()) {
            continue;
        }
        if f.metrics.len() != 1 || !f.metrics[0].labels.is_empty() {
            return Err(format!("family {} has {} metrics in protobuf", name, f.metrics.len()));
        }
        if v.insert(name.clone(), f.metrics[0].value as i64).is_some() {
            return Err(format!("{name} is exported twice in protobuf"));
        }
    }
    Ok(v)
}

const DOTS: &str = "open_fds is 2 for a process without open descriptors";

/// Is what was exported between what /proc said before and after?
fn between(before: &Option<Values>, got: &Values, after: &Option<Values>, slack: i64, ctx: &mut Ctx) -> Check {
    let (Some(a), Some(b)) = (before, after) else {
        if before.is_none() && after.is_none() && !got.is_empty() {
            return Err(format!("the process does not exist, but {got:?} is exported"));
        }
        return Ok(());
    };
    for n in NAMES {
        match (a.get(n), got.get(n), b.get(n)) {
            // procfs 0.16 counts the entries of the directory itself, with "." and "..", when the kernel gives it no size
            (Some(0), Some(2), Some(0)) if n == "open_fds" => ctx.known(DOTS.into()),
            (Some(x), Some(g), Some(y)) => {
                let s = match n { "open_fds" => slack, "start_time_seconds" => 1, _ => 0 };
                if *g < *x.min(y) - s.min(1) || *g > *x.max(y) + s {
                    return Err(format!("{n} is {g}, but the system said {x} before and {y} after the scrape"));
                }
            }
            (Some(x), None, Some(y)) => return Err(format!("{n} is not exported, but the system said {x} and {y}")),
            (None, Some(g), None) if n == "max_fds" => return Err(format!("{n} is {g}, but the system gives no limit")),
            (None, Some(g), None) if n == "open_fds" && *g != 0 => return Err(format!("{n} is {g}, but the system does not say")),
            _ => {}
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Open(u16),
    Close(u16),
    Threads(u8),
    Join(u8),
    /// MiB, and how many of them to touch
    Map(u32, u8),
    Unmap(u8),
    /// milliseconds of user and system time, by 0 the process, 1 a thread of it, 2 a child of it
    Burn(u16, u16, u8),
    Name(Vec<u8>),
    /// soft limit of open files
    Limit(u32),
    Stop,
    Continue,
    /// a new collector for the process
    Collector,
    /// end it without collecting it
    Kill,
    Reap,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    steps: Vec<Step>,
    /// how many more threads scrape the same collector meanwhile
    #[serde(default)]
    together: u8,
}

struct Kid {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    pid: i32,
    alive: bool,
    stopped: bool,
    reaped: bool,
}
impl Kid {
    fn new() -> Kid {
        let mut child = Command::new("/proc/self/exe").arg("child").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let mut k = Kid { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), pid: child.id() as i32, child, alive: true, stopped: false, reaped: false };
        k.answer();
        k
    }
    fn answer(&mut self) {
        let mut l = String::new();
        self.from.read_line(&mut l).unwrap();
        if l != "ok\n" {
            eprintln!("HARNESS ERROR: the child answered {l:?}");
            std::process::exit(4);
        }
    }
    fn tell(&mut self, s: String) {
        if !self.alive {
            return;
        }
        if self.stopped {
            self.signal(libc::SIGCONT);
        }
        self.to.write_all(s.as_bytes()).unwrap();
        self.to.write_all(b"\n").unwrap();
        self.to.flush().unwrap();
        self.answer();
        // let it go back to sleep, so that nothing changes any more
        let t = Instant::now();
        while state(self.pid) != Some('S') && t.elapsed() < Duration::from_secs(5) {
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    fn signal(&mut self, s: i32) {
        // only ever sent to a child of ours that has not been waited for
        if self.reaped {
            return;
        }
        unsafe { libc::kill(self.pid, s) };
        let want = match s { libc::SIGKILL => 'Z', libc::SIGSTOP => 'T', _ => 'S' };
        let t = Instant::now();
        while state(self.pid) != Some(want) && t.elapsed() < Duration::from_secs(5) {
            std::thread::sleep(Duration::from_micros(200));
        }
        self.stopped = s == libc::SIGSTOP;
        if s == libc::SIGKILL {
            self.alive = false;
        }
    }
    fn reap(&mut self) {
        if !self.reaped {
            if self.alive {
                self.signal(libc::SIGKILL);
            }
            self.child.wait().unwrap();
            self.reaped = true;
        }
    }
}
impl Drop for Kid {
    fn drop(&mut self) {
        self.reap()
    }
}
fn state(pid: i32) -> Option<char> {
    let s = std::fs::read(format!("/proc/{pid}/stat")).ok()?;
    let close = s.iter().rposition(|b| *b == b')')?;
    Some(s[close + 2] as char)
}

fn history(case: &Case, ctx: &mut Ctx) -> Check {
    let mut kid = Kid::new();
    let mut collectors = vec![(ProcessCollector::new(kid.pid), App::new(kid.pid))];
    let mut touched_before: Option<i64> = None;
    let mut changes = 0;
    for (i, s) in case.steps.iter().enumerate() {
        let mut grow = 0;
        if kid.alive || matches!(s, Step::Reap | Step::Collector | Step::Limit(_)) {
            changes += 1;
        }
        match s {
            Step::Open(n) => kid.tell(format!("open {n}")),
            Step::Close(n) => kid.tell(format!("close {n}")),
            Step::Threads(n) => kid.tell(format!("threads {n}")),
            Step::Join(n) => kid.tell(format!("join {n}")),
            Step::Map(n, m) => {
                kid.tell(format!("map {n} {m}"));
                if kid.alive && *n <= 64 { grow = (*n as i64).min(*m as i64) << 20 }
            }
            Step::Unmap(n) => { kid.tell(format!("unmap {n}")); touched_before = None }
            Step::Burn(u, s, how) => kid.tell(format!("{} {u} {s}", ["burn", "burnthread", "burnchild"][*how as usize % 3])),
            Step::Name(n) => {
                let n: String = n.iter().filter(|b| **b != 0).map(|b| format!("{b:02x}")).collect();
                if !n.is_empty() { kid.tell(format!("name {n}")) }
            }
            Step::Limit(n) => if !kid.reaped {
                let mut old: libc::rlimit = unsafe { std::mem::zeroed() };
                unsafe { libc::prlimit(kid.pid, libc::RLIMIT_NOFILE, std::ptr::null(), &mut old) };
                let new = libc::rlimit { rlim_cur: (*n as u64).min(old.rlim_max), rlim_max: old.rlim_max };
                unsafe { libc::prlimit(kid.pid, libc::RLIMIT_NOFILE, &new, std::ptr::null_mut()) };
            },
            Step::Stop => if kid.alive { kid.signal(libc::SIGSTOP) },
            Step::Continue => if kid.alive && kid.stopped { kid.signal(libc::SIGCONT) },
            Step::Collector => collectors.push((ProcessCollector::new(kid.pid), App::new(kid.pid))),
            Step::Kill => if kid.alive { kid.signal(libc::SIGKILL) },
            Step::Reap => kid.reap(),
        }
        for (j, (bare, app)) in collectors.iter().enumerate() {
            let mut look = |ctx: &mut Ctx| -> Result<Values, String> {
                let before = proc(kid.pid);
                let one = || -> Result<[Values; 3], String> {
                    let a = scrape(bare, "")?;
                    let b = scrape(app, "process_").map_err(|e| format!("with a namespace: {e}"))?;
                    Ok([a, b, scrape_proto(bare)?])
                };
                let [all, others] = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..case.together).map(|_| s.spawn(|| [one(), one()])).collect();
                    let mine = vec![one()];
                    [mine, hs.into_iter().flat_map(|h| h.join().unwrap()).collect()]
                });
                let after = proc(kid.pid);
                let a = all[0].clone()?[0].clone();
                for (got, how) in all.into_iter().chain(others).collect::<Result<Vec<_>, _>>()?.iter().flat_map(|[a, b, c]| [(a, ""), (b, "namespaced: "), (c, "protobuf: ")]) {
                    between(&before, got, &after, 0, ctx).map_err(|e| format!("{how}{e}{}", if case.together > 0 { ", while others scraped it too" } else { "" }))?;
                    // what went into memory shows
                    if grow > 0 {
                        if let (Some(x), Some(y)) = (touched_before, got.get("resident_memory_bytes")) {
                            if *y < x + grow - (4 << 20) { return Err(format!("resident memory went from {x} to {y} only")) }
                        }
                    }
                }
                Ok(a)
            };
            // the process may not be at rest yet, so only what fails every time is believed
            let mut a = look(ctx);
            for n in 0..8 {
                if a.is_ok() { break }
                ctx.label("looked again");
                std::thread::sleep(Duration::from_millis(1 << n));
                a = look(ctx);
            }
            let a = a.map_err(|e| format!("step {i} {s:?}, collector {j}: {e}"))?;
            if j + 1 == collectors.len() { touched_before = a.get("resident_memory_bytes").copied() }
        }
        ctx.label_if(kid.reaped, "scraped after its end");
        ctx.label_if(!kid.reaped && !kid.alive, "scraped as a zombie");
        ctx.label_if(kid.stopped, "scraped while stopped");
        ctx.label_if(case.together > 0, "scraped by several threads at a time");
    }
    ctx.label_if(case.steps.iter().any(|s| matches!(s, Step::Burn(u, s, _) if *u > 200 || *s > 200)), "used processor time");
    ctx.nontrivial_if(changes >= 2);
    Ok(())
}

/// The collector of the calling process; other things go on in it, so memory is only bounded.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Own {
    fds: u16,
    threads: u8,
}
fn own(case: &Own, ctx: &mut Ctx) -> Check {
    let mut fds = vec![];
    for i in 0..case.fds {
        fds.push(if i % 2 == 0 { std::fs::File::open("/dev/null") } else { std::fs::File::open("/") }.unwrap());
    }
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let rx = std::sync::Arc::new(std::sync::Mutex::new(rx));
    let hs: Vec<_> = (0..case.threads).map(|_| { let rx = rx.clone(); std::thread::Builder::new().stack_size(64 << 10).spawn(move || { let _ = rx.lock().unwrap().recv(); }).unwrap() }).collect();
    let pid = std::process::id() as i32;
    let mut last = Ok(());
    for _ in 0..20 {
        let before = proc(pid);
        let got = scrape(&ProcessCollector::for_self(), "")?;
        let after = proc(pid);
        // reading the directory opens it
        last = own_memory(&before, &got, &after, ctx);
        if last.is_ok() { break }
        ctx.label("looked again");
        std::thread::sleep(Duration::from_millis(5));
    }
    drop(tx);
    for h in hs { h.join().unwrap() }
    ctx.nontrivial_if(case.fds > 0 || case.threads > 0);
    last
}
/// As `between`, but with room for what scraping itself does to memory and descriptors.
fn own_memory(before: &Option<Values>, got: &Values, after: &Option<Values>, ctx: &mut Ctx) -> Check {
    let mut got = got.clone();
    let (Some(a), Some(b)) = (before, after) else { return Err("no /proc for ourselves".into()) };
    for n in ["virtual_memory_bytes", "resident_memory_bytes"] {
        let (Some(g), Some(x), Some(y)) = (got.get(n), a.get(n), b.get(n)) else { continue };
        if *g < x.min(y) - (256 << 20) || *g > x.max(y) + (256 << 20) { return Err(format!("{n} is {g}, but the system said {x} and {y}")) }
        got.insert(n.into(), *x);
    }
    between(before, &got, after, 2, ctx)
}

/// Any process id at all.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Which {
    Number(i32),
    /// the n-th of the processes there are
    Running(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyPid {
    which: Which,
    /// as a user who may not look into the processes of others
    unprivileged: bool,
}
/// Looks at processes as an unprivileged user, one process id a line.
pub fn peek() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let done = libc::setgroups(0, std::ptr::null()) == 0 && libc::setgid(65534) == 0 && libc::setuid(65534) == 0;
        println!("{}", if done { "ready" } else { "not possible" });
    }
    for line in std::io::stdin().lock().lines() {
        let mut ctx = Ctx::default();
        let r = look_at(line.unwrap().parse().unwrap(), &mut ctx);
        println!("{}", serde_json::to_string(&r.err()).unwrap());
    }
}
struct Peek {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    possible: bool,
}
impl Drop for Peek {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Peek {
    fn line(&mut self) -> String {
        let mut l = String::new();
        self.from.read_line(&mut l).unwrap();
        l.trim_end().to_owned()
    }
    fn new() -> Peek {
        let mut child = Command::new("/proc/self/exe").arg("peek").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let mut p = Peek { to: child.stdin.take().unwrap(), from: BufReader::new(child.stdout.take().unwrap()), child, possible: false };
        p.possible = p.line() == "ready";
        p
    }
}
thread_local!(static PEEK: std::cell::RefCell<Option<Peek>> = const { std::cell::RefCell::new(None) });

fn any_pid(c: &AnyPid, ctx: &mut Ctx) -> Check {
    let w = &c.which;
    let pid = match w {
        Which::Number(n) => *n,
        Which::Running(n) => {
            let mut all: Vec<i32> = std::fs::read_dir("/proc").unwrap().filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect();
            all.sort();
            all[*n as usize % all.len()]
        }
    };
    if !c.unprivileged {
        return look_at(pid, ctx).map_err(|e| format!("process {pid}: {e}"));
    }
    PEEK.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.get_or_insert_with(Peek::new);
        ctx.label(if p.possible { "as an unprivileged user" } else { "no unprivileged user" });
        ctx.nontrivial_if(p.possible);
        writeln!(p.to, "{pid}").unwrap();
        let l = p.line();
        match serde_json::from_str::<Option<String>>(&l) {
            Ok(None) => Ok(()),
            Ok(Some(e)) => Err(format!("process {pid}, for an unprivileged user: {e}")),
            Err(_) => Err(format!("process {pid}: a scrape by an unprivileged user ended with {l:?}")),
        }
    })
}
fn look_at(pid: i32, ctx: &mut Ctx) -> Check {
    let mut last = Ok(());
    // others go on working while we look, so only what fails every time is believed
    for _ in 0..20 {
        let before = proc(pid);
        let got = scrape(&ProcessCollector::new(pid), "")?;
        let after = proc(pid);
        ctx.label(if before.is_some() { "exists" } else { "does not exist" });
        ctx.nontrivial_if(true);
        last = between(&before, &got, &after, 2, ctx);
        if last.is_ok() {
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    last
}

pub fn c21() -> Property {
    let step = || prop_oneof![
        3 => prop_oneof![4 => 0u16..20, 2 => 0u16..300, 1 => 900u16..1100].prop_map(Step::Open),
        2 => prop_oneof![4 => 0u16..20, 2 => 0u16..300].prop_map(Step::Close),
        3 => prop_oneof![20 => 0u8..6, 5 => 0u8..60, 1 => 200u8..=255].prop_map(Step::Threads),
        2 => prop_oneof![20 => 0u8..6, 5 => 0u8..60, 1 => 200u8..=255].prop_map(Step::Join),
        3 => (prop_oneof![3 => 1u32..64, 1 => prop::sample::select(vec![2047, 2048, 4096, 4097, 1 << 20])], 0u8..48).prop_map(|(a, b)| Step::Map(a, b)),
        1 => (0u8..4).prop_map(Step::Unmap),
        1 => prop::collection::vec(prop_oneof![2 => prop::sample::select(vec![b' ', b')', b'(', b'\n', b'S', b'0', b'1', 0xff]), 1 => any::<u8>()], 1..18).prop_map(Step::Name),
        3 => prop_oneof![2 => 10u32..2000, 1 => 0u32..10, 1 => prop::sample::select(vec![65535, 65536, 1 << 20, u32::MAX])].prop_map(Step::Limit),
        1 => Just(Step::Stop),
        1 => Just(Step::Continue),
        1 => Just(Step::Collector),
        1 => Just(Step::Kill),
        1 => Just(Step::Reap),
    ];
    let history_case = move || (prop::collection::vec(step(), 1..14), prop_oneof![3 => Just(0u8), 1 => 1u8..4]).prop_map(|(steps, together)| Case { steps, together });
    let busy = || prop::collection::vec(
        prop_oneof![
            4 => (prop_oneof![1 => Just(0u16), 2 => 0u16..900], prop_oneof![1 => Just(0u16), 2 => 0u16..900], 0u8..3).prop_map(|(u, s, h)| Step::Burn(u, s, h)),
            1 => (0u8..6).prop_map(Step::Threads), 1 => Just(Step::Collector), 1 => Just(Step::Kill)], 2..6).prop_map(|steps| Case { steps, together: 0 });
    let pid = || prop_oneof![
        3 => any::<u16>().prop_map(Which::Running),
        1 => Just(Which::Number(1)),
        1 => any::<i32>().prop_map(Which::Number),
        1 => prop::sample::select(vec![0, -1, i32::MAX, i32::MIN, 1 << 22, (1 << 22) + 1, -2, 2, 3]).prop_map(Which::Number),
    ];
    Property {
        id: "C21",
        level: "exploration",
        rule: "histories: at least two steps change the process or the collector; own: some descriptors or threads were added; pid: always",
        arms: vec![
            Arm::new("history", 4_000, 30_000, history_case, history),
            Arm::new("processor-time", 80, 600, busy, history),
            Arm::new("any-pid", 5_000, 30_000, move || (pid(), prop::bool::weighted(0.4)).prop_map(|(which, unprivileged)| AnyPid { which, unprivileged }), any_pid),
            Arm::serial("own", 150, 3_000, || (prop_oneof![0u16..8, 0u16..300], 0u8..20).prop_map(|(fds, threads)| Own { fds, threads }), own),
        ],
    }
}
