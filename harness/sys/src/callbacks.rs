//! C25: panics while a collector is used, in the writer or in the call itself, do it no harm.
use crate::driver::*;
use crate::p_tokio::{compare, exported, says, Values};
use measured::text::TextEncoder;
use measured::MetricGroup;
use measured_process::ProcessCollector;
use measured_prometheus_protobuf::ProtoEncoder;
use measured_tokio::NamedRuntimesCollector;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::io;
use tokio::runtime::{Builder, Runtime};

/// A writer that panics after so many bytes.
pub struct Panics(usize);
impl io::Write for Panics {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            panic!("the writer");
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct BadName;
impl From<BadName> for Cow<'static, str> {
    fn from(_: BadName) -> Self {
        panic!("the name")
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Do {
    Add(u8),
    AddCurrent(u8),
    /// not in a runtime, where this is documented to panic
    AddOutside,
    AddBadName(u8),
    AddCurrentBadName(u8),
    Scrape,
    ScrapeInto { proto: bool, bytes: u16 },
    Process { proto: bool, bytes: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ops: Vec<Do>,
}
fn write<G: MetricGroup<TextEncoder<Panics>> + MetricGroup<ProtoEncoder<Panics>>>(g: &G, proto: bool, bytes: u16) -> bool {
    catch(|| {
        let to = Panics(bytes as usize);
        if proto {
            let mut e = ProtoEncoder::new(to);
            g.collect_group_into(&mut e).and_then(|()| e.flush()).unwrap();
        } else {
            g.collect_group_into(&mut TextEncoder::new(to)).unwrap();
        }
    })
    .is_err()
}
fn process(p: &ProcessCollector) -> Result<Vec<String>, String> {
    let mut e = measured::text::BufferedTextEncoder::new();
    p.collect_group_into(&mut e).map_err(|e| e.to_string())?;
    let mut names: Vec<String> = crate::text::parse(&e.finish(), true)?.into_iter().flat_map(|f| f.samples).map(|s| s.name).collect();
    names.sort();
    Ok(names)
}
fn check(c: &Case, ctx: &mut Ctx) -> Check {
    let rts: Vec<Runtime> = (0..2).map(|_| Builder::new_current_thread().build().unwrap()).collect();
    let own = ProcessCollector::for_self();
    let whole = process(&own)?;
    let coll = NamedRuntimesCollector::new();
    let mut added: Vec<(usize, String)> = vec![];
    let mut panicked = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let at = |m: String| format!("op {i} {op:?}: {m}");
        let name = format!("r{i}");
        let rt = |k: u8| k as usize % rts.len();
        let r = catch(|| -> Result<(), String> {
            match *op {
                Do::Add(k) => coll.add(rts[rt(k)].metrics(), name.clone()),
                Do::AddCurrent(k) => {
                    let _g = rts[rt(k)].enter();
                    coll.add_current(name.clone())
                }
                Do::AddOutside => coll.add_current(name.clone()),
                Do::AddBadName(k) => coll.add(rts[rt(k)].metrics(), BadName),
                Do::AddCurrentBadName(k) => {
                    let _g = rts[rt(k)].enter();
                    coll.add_current(BadName)
                }
                Do::Scrape => {
                    let snap = || {
                        let mut v = Values::new();
                        added.iter().for_each(|(r, n)| says(&rts[*r].metrics(), Some(n), &mut v));
                        v
                    };
                    let (before, got, after) = (snap(), exported(&coll, "")?, snap());
                    compare(&before, &got, &after, before == after)?;
                }
                Do::ScrapeInto { proto, bytes } => {
                    if write(&coll, proto, bytes) { panic!("as expected") }
                }
                Do::Process { proto, bytes } => {
                    let p = write(&own, proto, bytes);
                    let now = process(&own)?;
                    if now != whole {
                        return Err(format!("the process collector exports {now:?}, not {whole:?}"));
                    }
                    if p { panic!("as expected") }
                }
            }
            Ok(())
        });
        match (r, op) {
            (Ok(r), _) => {
                r.map_err(at)?;
                match op {
                    Do::Add(k) | Do::AddCurrent(k) => added.push((rt(*k), name)),
                    Do::AddOutside | Do::AddBadName(_) | Do::AddCurrentBadName(_) => return Err(at("did not panic".into())),
                    _ => {}
                }
            }
            (Err(p), Do::Add(_) | Do::AddCurrent(_) | Do::Scrape) => return Err(at(format!("panicked: {p}"))),
            (Err(_), _) => panicked += 1,
        }
    }
    ctx.label_if(!added.is_empty(), "runtimes added");
    ctx.nontrivial_if(panicked > 0 && !added.is_empty());
    Ok(())
}
pub fn c25() -> Property {
    let bytes = || prop_oneof![2 => 0u16..200, 3 => 0u16..8000];
    let op = move || prop_oneof![
        3 => any::<u8>().prop_map(Do::Add),
        3 => any::<u8>().prop_map(Do::AddCurrent),
        1 => Just(Do::AddOutside),
        1 => any::<u8>().prop_map(Do::AddBadName),
        1 => any::<u8>().prop_map(Do::AddCurrentBadName),
        3 => Just(Do::Scrape),
        3 => (any::<bool>(), bytes()).prop_map(|(proto, bytes)| Do::ScrapeInto { proto, bytes }),
        2 => (any::<bool>(), bytes()).prop_map(|(proto, bytes)| Do::Process { proto, bytes }),
    ];
    let case = move || prop::collection::vec(op(), 1..14).prop_map(|mut ops| {
        ops.push(Do::Scrape);
        Case { ops }
    });
    Property { id: "C25", level: "exploration", rule: "a call panicked, and runtimes were added", arms: vec![Arm::new("collectors", 3000, 40000, case, check)] }
}
