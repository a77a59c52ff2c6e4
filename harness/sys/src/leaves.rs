//! C24: what scraping a collector leaves behind.
use crate::driver::*;
use crate::mem::{count, Held};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::MetricGroup;
use measured_process::ProcessCollector;
use measured_prometheus_protobuf::ProtoEncoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io;

/// A writer that fails after so many bytes.
pub struct Fails(usize);
impl io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(io::ErrorKind::StorageFull.into());
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub trait Scraped: MetricGroup<BufferedTextEncoder> + MetricGroup<TextEncoder<Fails>> + MetricGroup<ProtoEncoder<Fails>> {}
impl<T: MetricGroup<BufferedTextEncoder> + MetricGroup<TextEncoder<Fails>> + MetricGroup<ProtoEncoder<Fails>>> Scraped for T {}

pub fn scrape_all(c: &impl Scraped) {
    let mut e = BufferedTextEncoder::new();
    c.collect_group_into(&mut e).unwrap();
    drop(e.finish());
    for n in [usize::MAX, 0, 1, 100, 1000] {
        let _ = c.collect_group_into(&mut TextEncoder::new(Fails(n)));
        let mut e = ProtoEncoder::new(Fails(n));
        let _ = c.collect_group_into(&mut e).and_then(|()| e.flush());
    }
}

/// Scrapes leave nothing, but for what the first ones may keep.
pub fn quiet(c: &impl Scraped, reps: u8) -> Check {
    let mut first = Held::default();
    for _ in 0..2 {
        count(&mut first, || scrape_all(c));
    }
    if first.bytes > 1 << 20 || first.blocks > 5000 {
        return Err(format!("the first scrapes left {first} behind"));
    }
    let mut left = Held::default();
    for _ in 0..reps {
        count(&mut left, || scrape_all(c));
    }
    // what is kept may change with what is reported, but may not grow with every scrape
    if left.blocks > 8 || left.bytes > 1 << 16 || left.blocks > 0 && reps > 8 {
        return Err(format!("{reps} more rounds of scrapes left {left} behind"));
    }
    Ok(())
}

/// Descriptors and threads of this process.
#[derive(Clone, Copy)]
pub struct Own(usize, usize);
impl Own {
    pub fn now() -> Own {
        let fds = std::fs::read_dir("/proc/self/fd").unwrap().count();
        // a listing of the tasks may miss some while others end: only the count is exact
        let status = std::fs::read_to_string("/proc/self/status").unwrap();
        let threads = status.lines().find_map(|l| l.strip_prefix("Threads:")).unwrap().trim().parse().unwrap();
        Own(fds, threads)
    }
    fn more(&self, than: &Own) -> bool {
        self.0 > than.0 || self.1 > than.1
    }
    /// What is there once no more goes away.
    fn settled(than: &Own) -> Own {
        let mut now = Own::now();
        for _ in 0..20 {
            if !now.more(than) {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(50));
            let then = Own::now();
            now = Own(now.0.min(then.0), now.1.min(then.1));
        }
        now
    }
    /// No more of them than before.
    pub fn same(&self) -> Check {
        let now = Own::settled(self);
        if now.more(self) {
            return Err(format!("there were {} descriptors and {} threads, and now there are {} and {}", self.0, self.1, now.0, now.1));
        }
        Ok(())
    }
    /// No more of them than before, and if there are then no more of them yet after the same again:
    /// where there are runtimes, their threads and descriptors come late.
    pub fn same_again(&self, again: impl Fn()) -> Check {
        let mut last = *self;
        for _ in 0..4 {
            let now = Own::settled(&last);
            if !now.more(&last) {
                return Ok(());
            }
            last = Own(now.0.max(last.0), now.1.max(last.1));
            again();
        }
        Err(format!("there were {} descriptors and {} threads, and they have become {} and {}, more with every scrape", self.0, self.1, last.0, last.1))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pids: Vec<i32>,
    this: bool,
    reps: u8,
}
fn processes(c: &Case, ctx: &mut Ctx) -> Check {
    let pids: Vec<i32> = c.pids.iter().map(|p| if *p < 0 { std::os::unix::process::parent_id() as i32 } else { *p }).collect();
    let make = || -> Vec<ProcessCollector> {
        let own = c.this.then(ProcessCollector::for_self);
        own.into_iter().chain(pids.iter().map(|p| ProcessCollector::new(*p))).collect()
    };
    scrape_all(&make().pop().unwrap_or_else(ProcessCollector::for_self));
    let before = Own::now();
    let mut total = Held::default();
    count(&mut total, || {
        let colls = make();
        for p in &colls {
            quiet(p, c.reps)?;
        }
        before.same()
    })?;
    if total != Held::default() {
        return Err(format!("after the collectors were dropped, {total} remained"));
    }
    ctx.label_if(c.this, "of the process itself");
    ctx.label_if(pids.iter().any(|p| !std::path::Path::new(&format!("/proc/{p}")).exists()), "of processes that do not exist");
    ctx.nontrivial_if(c.reps > 1 && (c.this || !pids.is_empty()));
    Ok(())
}

pub fn c24() -> Property {
    let pid = || prop_oneof![1 => Just(-1), 1 => Just(1), 1 => any::<i32>().prop_map(|x| x & i32::MAX), 1 => Just(0)];
    let case = move || (prop::collection::vec(pid(), 0..3), any::<bool>(), 1u8..12).prop_map(|(pids, this, reps)| Case { pids, this, reps });
    Property {
        id: "C24",
        level: "exploration",
        rule: "something was scraped again and again",
        arms: vec![crate::p_tokio::rest_arm(), Arm::serial("processes", 500, 10_000, case, processes)],
    }
}
