//! C22: tokio runtime metrics match the runtime.
use crate::driver::*;
use crate::leaves;
use crate::mem::{count, Held};
use crate::text;
use crate::util::*;
use measured::text::BufferedTextEncoder;
use measured::MetricGroup;
use measured_prometheus_protobuf::ProtoEncoder;
use measured_tokio::{NamedRuntimesCollector, RuntimeCollector};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::time::Duration;
use tokio::runtime::{Builder, HistogramScale, Runtime, RuntimeMetrics};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Work {
    /// tasks that yield this often, from outside
    Spawn(u16, u8),
    /// tasks spawned by a task
    Inside(u16),
    /// tasks that never end
    Pending(u16),
    /// tasks nobody gets to run during the scrape
    Frozen(u16),
    /// blocking jobs that go on during the scrape
    Blocking(u8),
    /// blocking jobs that have ended
    Ended(u8),
    /// tasks that use up their budget
    Budget(u8),
    /// tasks that take this many microseconds
    Busy(u8, u16),
    /// sockets to register, and how many to keep
    Io(u8, u8),
    /// the runtime's workers go on working during the scrape
    Noise(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rt {
    multi: bool,
    workers: u8,
    /// log scale, resolution in nanoseconds, buckets
    hist: Option<(bool, u64, u8)>,
    max_blocking: u8,
    /// how it gets into the collector
    how: u8,
    work: Vec<Work>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// 0, 1 unnamed and named collectors of one runtime each, 2 and up one collector of several
    collector: u8,
    name: String,
    rts: Vec<Rt>,
    /// the runtimes are shut down before the last scrapes
    #[serde(default)]
    ended: bool,
}

pub type Key = (String, BTreeMap<String, String>);
pub type Values = BTreeMap<Key, f64>;

const FAMILIES: [&str; 14] = [
    "threads", "active_tasks", "queued_tasks", "scheduled_tasks_total", "budget_forced_yield_count", "worker_mean_poll_time_seconds", "worker_noop_count", "worker_park_count",
    "worker_steal_count", "worker_steal_operations_count", "worker_poll_time_seconds", "registered_fds_total", "deregistered_fds_total", "io_ready_events_total",
];
/// those that can also go down
const GAUGES: [&str; 4] = ["threads", "active_tasks", "queued_tasks", "worker_mean_poll_time_seconds"];

/// `le` in one spelling
fn le(x: f64) -> String {
    if x == f64::INFINITY { "+Inf".into() } else { format!("{x:e}") }
}

/// What the runtime says of itself.
#[allow(deprecated)]
pub fn says(m: &RuntimeMetrics, name: Option<&str>, v: &mut Values) {
    let mut put = |family: &str, labels: &[(&str, String)], x: f64| {
        let mut l: BTreeMap<String, String> = labels.iter().map(|(a, b)| (a.to_string(), b.clone())).collect();
        if let Some(n) = name {
            l.insert("runtime".into(), n.into());
        }
        v.insert((family.to_owned(), l), x);
    };
    let idle = m.num_idle_blocking_threads();
    put("threads", &[("kind", "worker".into())], m.num_workers() as f64);
    put("threads", &[("kind", "idle".into())], idle as f64);
    put("threads", &[("kind", "blocking".into())], m.num_blocking_threads().saturating_sub(idle) as f64);
    put("active_tasks", &[], m.active_tasks_count() as f64);
    put("queued_tasks", &[("kind", "blocking".into())], m.blocking_queue_depth() as f64);
    put("queued_tasks", &[("kind", "injection".into())], m.injection_queue_depth() as f64);
    put("scheduled_tasks_total", &[("worker", "remote".into()), ("overflow", "true".into())], m.remote_schedule_count() as f64);
    put("budget_forced_yield_count", &[], m.budget_forced_yield_count() as f64);
    put("registered_fds_total", &[], m.io_driver_fd_registered_count() as f64);
    put("deregistered_fds_total", &[], m.io_driver_fd_deregistered_count() as f64);
    put("io_ready_events_total", &[], m.io_driver_ready_count() as f64);
    for w in 0..m.num_workers() {
        let worker = || ("worker", w.to_string());
        put("queued_tasks", &[("kind", w.to_string())], m.worker_local_queue_depth(w) as f64);
        put("scheduled_tasks_total", &[worker(), ("overflow", "false".into())], m.worker_local_schedule_count(w) as f64);
        put("scheduled_tasks_total", &[worker(), ("overflow", "true".into())], m.worker_overflow_count(w) as f64);
        put("worker_mean_poll_time_seconds", &[worker()], m.worker_mean_poll_time(w).as_secs_f64());
        put("worker_noop_count", &[worker()], m.worker_noop_count(w) as f64);
        put("worker_park_count", &[worker()], m.worker_park_count(w) as f64);
        put("worker_steal_count", &[worker()], m.worker_steal_count(w) as f64);
        put("worker_steal_operations_count", &[worker()], m.worker_steal_operations(w) as f64);
        put("worker_poll_time_seconds_count", &[worker()], m.worker_poll_count(w) as f64);
        put("worker_poll_time_seconds_sum", &[worker()], m.worker_total_busy_duration(w).as_secs_f64());
        if m.poll_count_histogram_enabled() {
            let n = m.poll_count_histogram_num_buckets();
            let mut total = 0;
            for b in 0..n {
                total += m.poll_count_histogram_bucket_count(w, b);
                let end = if b + 1 == n { f64::INFINITY } else { m.poll_count_histogram_bucket_range(b).end.as_secs_f64() };
                put("worker_poll_time_seconds_bucket", &[worker(), ("le", le(end))], total as f64);
            }
        }
    }
}

fn base(name: &str) -> &str {
    ["_bucket", "_sum", "_count"].iter().find_map(|s| name.strip_suffix(s).filter(|b| *b == "worker_poll_time_seconds")).unwrap_or(name)
}

/// An export, which has to have every family once.
pub fn exported(c: &impl MetricGroup<BufferedTextEncoder>, prefix: &str) -> Result<Values, String> {
    let mut enc = BufferedTextEncoder::new();
    c.collect_group_into(&mut enc).map_err(|e| format!("error {e}"))?;
    parsed(&enc.finish(), prefix)
}
fn parsed(doc: &[u8], prefix: &str) -> Result<Values, String> {
    let mut v = Values::new();
    let mut helped = vec![];
    for f in text::parse(doc, false)? {
        let name = f.name.strip_prefix(prefix).ok_or_else(|| format!("{} lacks the prefix {prefix}", f.name))?;
        if f.help.is_some() { helped.push(name.to_owned()) }
        if !FAMILIES.contains(&base(name)) {
            continue; // something more is not judged
        }
        for s in f.samples {
            let mut l = BTreeMap::new();
            for (a, b) in s.labels {
                let b = if a == "le" { le(b.parse().map_err(|_| format!("le={b:?}"))?) } else { b };
                if l.insert(a.clone(), b).is_some() { return Err(format!("label {a} twice on {}", s.name)) }
            }
            let k = (s.name.strip_prefix(prefix).unwrap().to_owned(), l);
            let n = s.value.parse().map_err(|_| format!("{k:?} is {:?}", s.value))?;
            if v.insert(k.clone(), n).is_some() { return Err(format!("{k:?} is exported twice")) }
        }
    }
    for f in FAMILIES {
        if helped.iter().filter(|h| *h == f).count() != 1 { return Err(format!("{f} is not introduced exactly once:\n{}", show(doc))) }
    }
    // every family is one group of lines
    let doc = String::from_utf8(doc.to_vec()).unwrap();
    let mut order: Vec<&str> = vec![];
    for l in doc.lines().filter(|l| !l.is_empty()) {
        let name = l.strip_prefix("# HELP ").or(l.strip_prefix("# TYPE ")).unwrap_or(l).split(['{', ' ']).next().unwrap();
        let b = base(name.strip_prefix(prefix).unwrap_or(name));
        if order.last() != Some(&b) {
            if order.contains(&b) { return Err(format!("the lines of {b} are not together:\n{}", show(doc.as_bytes()))) }
            order.push(b);
        }
    }
    Ok(v)
}

/// The same in protobuf, where the poll times are not judged: the format has one name for a family.
fn exported_proto(c: &impl MetricGroup<ProtoEncoder<Vec<u8>>>, prefix: &str) -> Result<Values, String> {
    let mut enc = ProtoEncoder::new(Vec::new());
    c.collect_group_into(&mut enc).map_err(|e| format!("error {e}"))?;
    enc.flush().unwrap();
    let mut v = Values::new();
    let mut seen = vec![];
    for f in crate::proto::decode(&enc.writer)? {
        let full = f.name.unwrap_or_default();
        let name = full.strip_prefix(prefix).ok_or_else(|| format!("{full} lacks the prefix {prefix}"))?.to_owned();
        if !FAMILIES.contains(&name.as_str()) || name == base("worker_poll_time_seconds") { continue }
        if seen.contains(&name) { return Err(format!("{name} is two families in protobuf")) }
        for m in f.metrics {
            let k = (name.clone(), m.labels.into_iter().collect());
            if v.insert(k, m.value).is_some() { return Err(format!("a sample of {name} is exported twice in protobuf")) }
        }
        seen.push(name);
    }
    Ok(v)
}

enum Coll {
    Bare(RuntimeCollector),
    Named(NamedRuntimesCollector),
}
impl<E: measured::metric::group::Encoding> MetricGroup<E> for Coll
where
    RuntimeCollector: MetricGroup<E>,
    NamedRuntimesCollector: MetricGroup<E>,
{
    fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> {
        match self { Coll::Bare(c) => c.collect_group_into(enc), Coll::Named(c) => c.collect_group_into(enc) }
    }
}
#[derive(MetricGroup)]
#[metric(new(c: Coll))]
struct App {
    #[metric(namespace = "tokio")]
    #[metric(init = c)]
    tokio: Coll,
}

struct Live {
    rt: Option<Runtime>,
    metrics: RuntimeMetrics,
    name: Option<String>,
    release: Vec<Arc<AtomicBool>>,
    barriers: Vec<Arc<Barrier>>,
    sockets: Vec<tokio::net::UdpSocket>,
    drive: bool,
}
impl Drop for Live {
    fn drop(&mut self) {
        self.settle();
        self.sockets.clear();
        if let Some(rt) = self.rt.take() { rt.shutdown_background() }
    }
}
impl Live {
    fn settle(&mut self) {
        for r in self.release.drain(..) { r.store(true, SeqCst) }
        for b in self.barriers.drain(..) { b.wait(); }
    }
    fn run(&mut self, w: &Work) {
        let rt = self.rt.as_ref().unwrap();
        let join = |hs: Vec<tokio::task::JoinHandle<()>>| rt.block_on(async { for h in hs { h.await.unwrap() } });
        match *w {
            Work::Spawn(n, y) => join((0..n).map(|_| rt.spawn(async move { for _ in 0..y { tokio::task::yield_now().await } })).collect()),
            Work::Inside(n) => join(vec![rt.spawn(async move {
                let hs: Vec<_> = (0..n).map(|_| tokio::spawn(async {})).collect();
                for h in hs { h.await.unwrap() }
            })]),
            Work::Pending(n) => {
                for _ in 0..n { rt.spawn(std::future::pending::<()>()); }
                rt.block_on(async { for _ in 0..20 { tokio::task::yield_now().await } });
            }
            Work::Frozen(n) => {
                if self.drive {
                    // hold every worker
                    let workers = self.metrics.num_workers();
                    let started = Arc::new(AtomicUsize::new(0));
                    let go = Arc::new(AtomicBool::new(false));
                    for _ in 0..workers {
                        let (s, g) = (started.clone(), go.clone());
                        rt.spawn(async move {
                            s.fetch_add(1, SeqCst);
                            while !g.load(SeqCst) { std::thread::sleep(Duration::from_micros(100)) }
                        });
                    }
                    let t = std::time::Instant::now();
                    while started.load(SeqCst) < workers && t.elapsed() < Duration::from_secs(10) { std::thread::yield_now() }
                    self.release.push(go);
                }
                for _ in 0..n { rt.spawn(async {}); }
            }
            Work::Blocking(n) => {
                let go = Arc::new(AtomicBool::new(false));
                for _ in 0..n {
                    let g = go.clone();
                    rt.spawn_blocking(move || while !g.load(SeqCst) { std::thread::sleep(Duration::from_micros(300)) });
                }
                self.release.push(go);
            }
            Work::Ended(n) => join((0..n).map(|_| rt.spawn_blocking(|| {})).collect()),
            Work::Budget(n) => join((0..n).map(|_| rt.spawn(async {
                let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
                for i in 0..300 { tx.send(i).unwrap() }
                for _ in 0..300 { rx.recv().await.unwrap(); }
            })).collect()),
            Work::Busy(n, us) => join((0..n).map(|_| rt.spawn(async move {
                let t = std::time::Instant::now();
                while t.elapsed() < Duration::from_micros(us as u64) { std::hint::spin_loop() }
            })).collect()),
            Work::Io(n, keep) => {
                let mut s = rt.block_on(async { let mut v = vec![]; for _ in 0..n { v.push(tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap()) } 
                    if let [a, b, ..] = &v[..] { a.send_to(b"x", b.local_addr().unwrap()).await.unwrap(); let mut buf = [0; 4]; b.recv(&mut buf).await.unwrap(); }
                    v });
                s.truncate(keep as usize);
                self.sockets.extend(s);
                rt.block_on(tokio::task::yield_now());
            }
            Work::Noise(n) => {
                let go = Arc::new(AtomicBool::new(false));
                for _ in 0..n {
                    let g = go.clone();
                    rt.spawn(async move { while !g.load(SeqCst) { tokio::task::yield_now().await } });
                }
                self.release.push(go);
            }
        }
    }
    /// of the work that waits for us, is any noise?
    fn freeze_blocked(&self) -> bool { !self.release.is_empty() }
}

fn start(r: &Rt) -> Runtime {
    let mut b = if r.multi { Builder::new_multi_thread() } else { Builder::new_current_thread() };
    if r.multi { b.worker_threads(r.workers.max(1) as usize); }
    b.enable_io().max_blocking_threads(r.max_blocking.max(1) as usize).thread_stack_size(256 << 10).thread_keep_alive(Duration::from_secs(3600));
    if let Some((log, res, n)) = r.hist {
        b.enable_metrics_poll_count_histogram();
        b.metrics_poll_count_histogram_scale(if log { HistogramScale::Log } else { HistogramScale::Linear });
        b.metrics_poll_count_histogram_resolution(Duration::from_nanos(res.max(1)));
        // tokio's own bounds overflow beyond this
        let most = if log { 61 - res.max(1).next_power_of_two().ilog2() as usize } else { 255 };
        b.metrics_poll_count_histogram_buckets((n.max(2) as usize).min(most));
    }
    b.build().unwrap()
}

fn check(case: &Case, ctx: &mut Ctx) -> Check {
    let mut live: Vec<Live> = vec![];
    let many = NamedRuntimesCollector::new();
    let mut colls: Vec<(Coll, Vec<usize>, App)> = vec![];
    for (i, r) in case.rts.iter().enumerate() {
        let rt = start(r);
        let metrics = rt.metrics();
        let named = case.collector >= 1;
        // all different, the first possibly empty
        let name = named.then(|| if i == 0 { case.name.clone() } else { format!("{}{i}", case.name) });
        let make = |how: u8| -> RuntimeCollector {
            let c = if how % 2 == 0 { RuntimeCollector::new(rt.metrics()) } else { let _g = rt.enter(); RuntimeCollector::current() };
            match &name { Some(n) if i % 2 == 0 => c.with_name("not this one").with_name(n.clone()), Some(n) => c.with_name(n.clone()), None => c }
        };
        if case.collector < 2 {
            colls.push((Coll::Bare(make(r.how)), vec![i], App::new(Coll::Bare(make(r.how / 2)))));
        } else if r.how % 2 == 0 {
            many.add(rt.metrics(), name.clone().unwrap());
        } else {
            let _g = rt.enter();
            many.add_current(name.clone().unwrap());
        }
        live.push(Live { metrics, name, release: vec![], barriers: vec![], sockets: vec![], drive: r.multi, rt: Some(rt) });
    }
    if case.collector >= 2 {
        let twin = NamedRuntimesCollector::default();
        for l in &live { twin.add(l.metrics.clone(), l.name.clone().unwrap()) }
        colls.push((Coll::Named(many), (0..live.len()).collect(), App::new(Coll::Named(twin))));
    }
    let longest = case.rts.iter().map(|r| r.work.len()).max().unwrap_or(0);
    let (mut exact, mut moving) = (0, 0);
    for step in 0..longest.max(1) + case.ended as usize {
        let gone = step == longest.max(1);
        for l in live.iter_mut().filter(|_| gone) {
            l.settle();
            l.sockets.clear();
            if let Some(rt) = l.rt.take() { rt.shutdown_timeout(Duration::from_secs(5)) }
        }
        for (l, r) in live.iter_mut().zip(&case.rts) {
            let Some(w) = r.work.get(step) else { continue };
            // what holds the workers or jobs of a runtime ends before it gets more to do
            if l.freeze_blocked() { l.settle() }
            l.run(w);
        }
        for (c, which, app) in &colls {
            let snap = || { let mut v = Values::new(); for i in which { says(&live[*i].metrics, live[*i].name.as_deref(), &mut v) } v };
            let noisy = !gone && which.iter().any(|i| matches!(case.rts[*i].work.get(step.min(case.rts[*i].work.len().max(1) - 1)), Some(Work::Noise(_))) && case.rts[*i].multi);
            let tries = if noisy { 6 } else { 200 };
            // A depth may go up and down again between two looks, so a difference has to last.
            let mut wrong = 0;
            for t in 0..tries {
                let before = snap();
                let got = exported(c, "").map_err(|e| format!("step {step}: {e}"))?;
                let got2 = exported(app, "tokio_").map_err(|e| format!("step {step}, namespaced: {e}"))?;
                let got3 = exported_proto(c, "").map_err(|e| format!("step {step}, protobuf: {e}"))?;
                let got4 = exported_proto(app, "tokio_").map_err(|e| format!("step {step}, protobuf, namespaced: {e}"))?;
                let after = snap();
                let still = before == after;
                let rest = |v: &Values| -> Values { v.iter().filter(|(k, _)| base(&k.0) != "worker_poll_time_seconds").map(|(k, x)| (k.clone(), *x)).collect() };
                let r = (|| -> Check {
                    for got in [&got, &got2] {
                        compare(&before, got, &after, still)?;
                    }
                    for got in [&got3, &got4] {
                        compare(&rest(&before), got, &rest(&after), still).map_err(|e| format!("protobuf: {e}"))?;
                    }
                    Ok(())
                })();
                if let Err(e) = r {
                    wrong += 1;
                    if wrong == 4 { return Err(format!("step {step}: {e}")) }
                    std::thread::sleep(Duration::from_millis(1 << wrong));
                    continue;
                }
                if still { exact += 1; break }
                moving += 1;
                if t > 20 { std::thread::sleep(Duration::from_millis(1)) } else { std::thread::yield_now() }
            }
        }
        for l in &mut live { if step + 1 == longest { l.settle() } }
    }
    ctx.label_if(exact > 0, "compared exactly");
    ctx.label_if(moving > 0, "scraped while counts moved");
    ctx.label_if(case.rts.iter().any(|r| r.hist.is_some()), "with poll-time histogram");
    ctx.label_if(case.ended && !live.is_empty(), "scraped after the runtimes had ended");
    ctx.label_if(case.collector >= 2 && live.len() > 1, "several runtimes in one collector");
    ctx.nontrivial_if(exact > 0 && case.rts.iter().any(|r| !r.work.is_empty()));
    Ok(())
}

pub fn compare(before: &Values, got: &Values, after: &Values, still: bool) -> Check {
    for (k, g) in got {
        let (Some(a), Some(b)) = (before.get(k), after.get(k)) else { return Err(format!("{k:?} is exported, but no runtime has it")) };
        let gauge = GAUGES.contains(&k.0.as_str());
        if still && a != g { return Err(format!("{k:?} is {g}, but the runtime says {a}")) }
        // what only ever grows was between what it was before and after
        if !gauge && (g < a || g > b) { return Err(format!("{k:?} is {g}, but the runtime said {a} before and {b} after")) }
    }
    for k in before.keys() {
        if !got.contains_key(k) { return Err(format!("{k:?} is not exported")) }
    }
    Ok(())
}

// ---- C24: what scraping runtimes leaves behind

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rest {
    case: Case,
    reps: u8,
    /// how many collectors come and go
    fleeting: u8,
}
fn rest(c: &Rest, ctx: &mut Ctx) -> Check {
    let mut live: Vec<Live> = vec![];
    for r in &c.case.rts {
        let rt = start(r);
        live.push(Live { metrics: rt.metrics(), name: None, release: vec![], barriers: vec![], sockets: vec![], drive: r.multi, rt: Some(rt) });
    }
    for (l, r) in live.iter_mut().zip(&c.case.rts) {
        for w in &r.work {
            if l.freeze_blocked() { l.settle() }
            l.run(w);
        }
    }
    let named = |n: u8| {
        let many = if n % 2 == 0 { NamedRuntimesCollector::new() } else { NamedRuntimesCollector::default() };
        for (i, l) in live.iter().enumerate() { many.add(l.metrics.clone(), format!("{}{i}{n}", c.case.name)) }
        Coll::Named(many)
    };
    let make = |n: u8| {
        if c.case.collector < 2 && !live.is_empty() {
            let r = RuntimeCollector::new(live[0].metrics.clone());
            Coll::Bare(if c.case.collector == 0 { r } else { r.with_name(c.case.name.clone()) })
        } else {
            named(n)
        }
    };
    let coll = make(0);
    let before = leaves::Own::now();
    leaves::quiet(&coll, c.reps)?;
    // a collector that is dropped gives everything back
    let come = || for n in 0..c.fleeting {
        let f = make(n);
        leaves::scrape_all(&f);
    };
    come();
    let mut left = Held::default();
    count(&mut left, || come());
    if left != Held::default() { return Err(format!("collectors that were dropped left {left} behind")) }
    if !live.iter().any(|l| l.freeze_blocked()) { before.same_again(|| { let _ = leaves::quiet(&coll, c.reps); come() })? }
    drop(coll);
    ctx.label_if(live.len() > 1, "several runtimes");
    ctx.label_if(c.case.rts.iter().any(|r| r.hist.is_some()), "with poll-time histogram");
    ctx.nontrivial_if(!live.is_empty() && c.reps > 1);
    for l in &mut live { l.settle() }
    Ok(())
}
pub fn rest_arm() -> Arm {
    // a long name would be escaped again in every sample of hundreds of scrapes
    let short = |mut case: Case| {
        case.name = case.name.chars().take(50).collect();
        case
    };
    Arm::serial("runtimes", 1_500, 20_000, move || (case_strategy(), 1u8..30, 0u8..4).prop_map(move |(case, reps, fleeting)| Rest { case: short(case), reps, fleeting }), rest)
}

fn case_strategy() -> impl Strategy<Value = Case> {
    let n = || prop_oneof![3 => 0u16..8, 1 => 0u16..600];
    let work = move || prop_oneof![
        3 => (n(), 0u8..5).prop_map(|(n, y)| Work::Spawn(n, y)),
        2 => n().prop_map(Work::Inside),
        2 => (0u16..9).prop_map(Work::Pending),
        3 => n().prop_map(Work::Frozen),
        3 => (0u8..12).prop_map(Work::Blocking),
        2 => (0u8..6).prop_map(Work::Ended),
        1 => (1u8..4).prop_map(Work::Budget),
        2 => (1u8..6, 0u16..2000).prop_map(|(n, us)| Work::Busy(n, us)),
        2 => (0u8..6, 0u8..4).prop_map(|(n, k)| Work::Io(n, k)),
        1 => (1u8..4).prop_map(Work::Noise),
    ];
    let hist = || prop::option::weighted(0.6, 
        prop_oneof![
            4 => (any::<bool>(), prop::sample::select(vec![1000u64, 7000, 100_000, 1_000_000, 50_000_000]), prop_oneof![4 => 2u8..14, 1 => 14u8..31]),
            // from nanoseconds to the longest it allows
            1 => (any::<bool>(), (0u32..30, any::<u16>()).prop_map(|(s, x)| ((1u64 << s) + (x as u64) % (1 << (s / 2 + 1))).min(1_000_000_000)), 2u8..12),
            1 => (any::<bool>(), Just(1_000_000_000), prop_oneof![2u8..12, 12u8..60]),
            1 => (Just(false), prop::sample::select(vec![100u64, 1000, 10_000]), 30u8..=255),
        ]);
    let rt = move || (any::<bool>(), 1u8..7, hist(), 1u8..8, 0u8..4, prop::collection::vec(work(), 0..6)).prop_map(|(multi, workers, hist, max_blocking, how, work)| Rt { multi, workers, hist, max_blocking, how, work });
    (0u8..5, prop_oneof![2 => "[a-z]{0,5}".boxed(), 1 => any_text()], prop::collection::vec(rt(), 0..4), prop::bool::weighted(0.3)).prop_map(|(collector, name, rts, ended)| Case { collector, name, rts, ended })
}

// ---- one collector that many threads add to and scrape

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shared {
    /// workers of the runtimes, 0 for those of the current thread; none of them does anything
    rts: Vec<u8>,
    /// those there are from the start
    first: u8,
    /// threads, with what each of them adds: the runtime, and whether as the current one
    adders: Vec<Vec<(u8, bool)>>,
    /// threads that scrape so many times, in text, protobuf, or with a namespace
    scrapers: Vec<(u8, u8)>,
    /// how long a writer takes for each piece of a scrape, in microseconds
    slow: Option<u8>,
}
/// A writer that lets others go first.
#[derive(Default)]
struct Slow(Vec<u8>, u8);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() / 1500 != (self.0.len() + b.len()) / 1500 {
            if self.1 == 0 { std::thread::yield_now() } else { std::thread::sleep(Duration::from_micros(self.1 as u64)) }
        }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// Borrowed, so that a group can have the same collector as a field.
struct Ref(Arc<NamedRuntimesCollector>);
impl<E: measured::metric::group::Encoding> MetricGroup<E> for Ref
where
    NamedRuntimesCollector: MetricGroup<E>,
{
    fn collect_group_into(&self, enc: &mut E) -> Result<(), E::Err> { self.0.collect_group_into(enc) }
}
#[derive(MetricGroup)]
#[metric(new(c: Arc<NamedRuntimesCollector>))]
struct SharedApp {
    #[metric(namespace = "tokio")]
    #[metric(init = Ref(c.clone()))]
    tokio: Ref,
}
fn shared(c: &Shared, ctx: &mut Ctx) -> Check { in_a_thread(c, ctx, shared_inner) }
fn shared_inner(c: &Shared, ctx: &mut Ctx) -> Check {
    let rts: Vec<Runtime> = c.rts.iter().map(|w| if *w == 0 { Builder::new_current_thread().build().unwrap() } else { Builder::new_multi_thread().worker_threads(*w as usize).build().unwrap() }).collect();
    let coll = Arc::new(NamedRuntimesCollector::new());
    let app = SharedApp::new(coll.clone());
    let rt = |k: u8| &rts[k as usize % rts.len()];
    // every name, with the runtime it is for, and whether adding it has begun and ended
    let mut names: Vec<(String, u8)> = (0..c.first).map(|i| (format!("first{i}"), i)).collect();
    for (a, adds) in c.adders.iter().enumerate() { names.extend(adds.iter().enumerate().map(|(i, (k, _))| (format!("a{a}.{i}"), *k))) }
    let all: Vec<(String, u8, AtomicBool, AtomicBool)> = names.into_iter().map(|(n, k)| (n, k, AtomicBool::new(false), AtomicBool::new(false))).collect();
    let add = |i: usize, current: bool| {
        let (n, k, begun, done) = &all[i];
        begun.store(true, SeqCst);
        if current { let _g = rt(*k).enter(); coll.add_current(n.clone()) } else { coll.add(rt(*k).metrics(), n.clone()) }
        done.store(true, SeqCst);
    };
    for i in 0..c.first as usize { add(i, i % 2 == 0) }
    let must = || -> Vec<usize> { (0..all.len()).filter(|i| all[*i].3.load(SeqCst)).collect() };
    let look = |how: u8| -> Result<bool, String> {
        let snap = |which: &[usize]| { let mut v = Values::new(); which.iter().for_each(|i| says(&rt(all[*i].1).metrics(), Some(&all[*i].0), &mut v)); v };
        let had = must();
        let before_all = snap(&(0..all.len()).collect::<Vec<_>>());
        let (got, proto) = match how % 4 {
            0 => (exported(&*coll, "")?, false),
            1 => (exported(&app, "tokio_")?, false),
            2 => (exported_proto(&*coll, "")?, true),
            _ => {
                let mut to = Slow(vec![], c.slow.unwrap_or(0));
                let mut e = measured::text::TextEncoder::new(&mut to);
                coll.collect_group_into(&mut e).map_err(|e| format!("error {e}"))?;
                e.flush().map_err(|e| format!("error {e}"))?;
                drop(e);
                (parsed(&to.0, "")?, false)
            }
        };
        let begun: Vec<usize> = (0..all.len()).filter(|i| all[*i].2.load(SeqCst)).collect();
        let after_all = snap(&(0..all.len()).collect::<Vec<_>>());
        let of = |v: &Values, which: &[usize]| -> Values {
            v.iter().filter(|(k, _)| !proto || base(&k.0) != "worker_poll_time_seconds").filter(|(k, _)| k.1.get("runtime").is_some_and(|n| which.iter().any(|i| all[*i].0 == *n))).map(|(k, x)| (k.clone(), *x)).collect()
        };
        if let Some(k) = got.keys().find(|k| !k.1.get("runtime").is_some_and(|n| begun.iter().any(|i| all[*i].0 == *n))) {
            return Err(format!("{k:?} is exported, but no such runtime was added"));
        }
        compare(&of(&before_all, &had), &of(&got, &had), &of(&after_all, &had), before_all == after_all)?;
        // what was being added may be there already, but not with other values
        let maybe: Vec<usize> = begun.iter().copied().filter(|i| !had.contains(i)).collect();
        let (m, b, a) = (of(&got, &maybe), of(&before_all, &maybe), of(&after_all, &maybe));
        let here = |v: &Values| -> Values { v.iter().filter(|(k, _)| m.contains_key(k)).map(|(k, x)| (k.clone(), *x)).collect() };
        compare(&here(&b), &m, &here(&a), before_all == after_all)?;
        Ok(!maybe.is_empty())
    };
    let barrier = Barrier::new(c.adders.len() + c.scrapers.len());
    let mut at = c.first as usize;
    let results: Vec<Result<bool, String>> = std::thread::scope(|s| {
        let mut hs = vec![];
        for adds in &c.adders {
            let from = at;
            at += adds.len();
            let (add, barrier) = (&add, &barrier);
            hs.push(s.spawn(move || {
                barrier.wait();
                for (i, (_, current)) in adds.iter().enumerate() { add(from + i, *current) }
                vec![]
            }));
        }
        for (n, how) in &c.scrapers {
            let (look, barrier) = (&look, &barrier);
            hs.push(s.spawn(move || {
                barrier.wait();
                (0..*n).map(|i| look(how.wrapping_add(i))).collect()
            }));
        }
        hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![Err("a thread panicked".into())])).collect()
    });
    let mut overlapped = false;
    for r in results { overlapped |= r.map_err(|e| format!("a scrape among others: {e}"))? }
    for how in 0..4 { look(how).map_err(|e| format!("once all were added: {e}"))?; }
    ctx.label_if(overlapped, "a runtime was added during a scrape");
    ctx.nontrivial_if(c.adders.len() + c.scrapers.len() > 1 && c.adders.iter().any(|a| !a.is_empty()));
    drop(app);
    for rt in rts { rt.shutdown_background() }
    Ok(())
}
fn shared_strategy() -> impl Strategy<Value = Shared> {
    (
        prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => 1u8..3], 1..4),
        0u8..6,
        prop::collection::vec(prop::collection::vec((any::<u8>(), any::<bool>()), 0..8), 0..5),
        prop::collection::vec((1u8..6, any::<u8>()), 0..4),
        prop::option::of(0u8..60),
    )
        .prop_map(|(rts, first, adders, scrapers, slow)| Shared { rts, first, adders, scrapers, slow })
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        level: "exploration",
        rule: "runtimes: some runtime was given work, and a scrape was compared while nothing moved; shared: several threads used one collector, and at least one added runtimes",
        arms: vec![Arm::new("runtimes", 12_000, 40_000, case_strategy, check), Arm::new("shared", 2_500, 30_000, shared_strategy, shared)],
    }
}
