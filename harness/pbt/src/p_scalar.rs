//! C08: counters and gauges are exact over their whole range.
use crate::driver::*;
use crate::sets::{Code, Three, Two, TwoSet};
use crate::text::{self, same, Num, Want};
use crate::util::*;
use measured::label::NoLabels;
use measured::metric::counter::{write_counter, CounterState};
use measured::metric::gauge::{write_float_gauge, write_gauge, FloatGaugeState, GaugeState};
use measured::metric::group::Encoding;
use measured::metric::name::MetricName;
use measured::metric::{MetricEncoding, MetricFamilyEncoding};
use measured::text::{BufferedTextEncoder, TextEncoder};
use measured::{Counter, CounterVec, FloatGauge, FloatGaugeVec, Gauge, GaugeVec};
use measured_prometheus_protobuf::ProtoEncoder;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Op<T> {
    /// 0 add one, 1 add, 2 subtract one, 3 subtract, 4 set
    op: u8,
    v: T,
    /// 0 direct, 1 guard, 2 exclusive direct, 3 exclusive guard
    via: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case<T> {
    /// 0 plain, 1 dense, 2 sparse
    holder: u8,
    ops: Vec<Op<T>>,
}
const GRP: Two = Two { kind: Three::Network, code: Code::One };
fn labels(holder: u8) -> Vec<(String, String)> {
    if holder == 0 { vec![] } else { vec![("kind".into(), "network".into()), ("code".into(), "one".into())] }
}

fn expect_text(doc: &[u8], typ: Option<&str>, labels: Vec<(String, String)>, n: Num) -> Check {
    let f = text::parse(doc, true)?;
    if f.len() != 1 || f[0].typ.as_deref() != typ {
        return Err(format!("not one family of type {typ:?}: {}", show(doc)));
    }
    text::match_ordered(&[Want { name: "m".into(), labels, value: n }], &f[0].samples)
}
fn expect_proto(doc: &[u8], labels: Vec<(String, String)>, kind: u64, x: f64) -> Check {
    let f = crate::proto::decode(doc)?;
    let ok = f.len() == 1 && f[0].metrics.len() == 1 && f[0].metrics[0].labels == labels && f[0].metrics[0].kind == kind && same(f[0].metrics[0].value, x);
    if ok { Ok(()) } else { Err(format!("protobuf export is {f:?}, expected {labels:?} {x:?}")) }
}
fn text_of(f: &impl MetricFamilyEncoding<BufferedTextEncoder>) -> Vec<u8> {
    let mut enc = BufferedTextEncoder::new();
    f.collect_family_into(MetricName::from_str("m"), &mut enc).unwrap();
    enc.finish().to_vec()
}
fn proto_of(f: &impl MetricFamilyEncoding<ProtoEncoder<Vec<u8>>>) -> Vec<u8> {
    let mut enc = ProtoEncoder::new(Vec::new());
    f.collect_family_into(MetricName::from_str("m"), &mut enc).unwrap();
    enc.flush().unwrap();
    enc.writer
}

macro_rules! scalar_check {
    ($fname:ident, $t:ty, $plain:ty, $vec:ty, $conv:expr, $step:expr, $direct:expr, $vdirect:expr, $guard:expr, $exd:expr, $vexd:expr, $ex:expr, $read:expr, $typ:literal, $pk:literal, $num:expr, $f:expr, $once:expr, $onep:expr) => {
        fn $fname(c: &Case<$t>, ctx: &mut Ctx) -> Check {
            let mut plain = if c.ops.len() % 2 == 0 { <$plain>::new() } else { <$plain>::default() };
            let mut vec = if c.holder == 1 { <$vec>::dense() } else { <$vec>::sparse() };
            let id = vec.with_labels(GRP);
            drop(vec.get_metric(id));
            let mut model = Default::default();
            let mut done = 0;
            for (i, op) in c.ops.iter().enumerate() {
                let v = $conv(op.v);
                let Some(next) = $step(model, op.op % 5, v) else { continue };
                model = next;
                done += 1;
                if c.holder == 0 {
                    match op.via % 4 { 0 => $direct(&plain, op.op % 5, v), 1 => $guard(plain.get_metric(), op.op % 5, v), 2 => $exd(&mut plain, op.op % 5, v), _ => $ex(plain.get_metric_mut(), op.op % 5, v) }
                } else {
                    match op.via % 4 { 0 => $vdirect(&vec, op.op % 5, v), 1 => $guard(vec.get_metric(id), op.op % 5, v), 2 => $vexd(&mut vec, op.op % 5, v), _ => $ex(vec.get_metric_mut(id), op.op % 5, v) }
                }
                let got = if c.holder == 0 { $read(&*plain.get_metric()) } else { $read(&*vec.get_metric(id)) };
                // the same through exclusive access
                let exclusive = if c.holder == 0 { $read(&*plain.get_metric_mut()) } else { $read(&*vec.get_metric_mut(id)) };
                if !same_bits($num(got), $num(model)) || !same_bits($num(exclusive), $num(model)) {
                    return Err(format!("op {i} {op:?}: state {got:?} ({exclusive:?} by exclusive access), expected {model:?}"));
                }
            }
            let l = labels(c.holder);
            let (t, p) = if c.holder == 0 { (text_of(&plain), proto_of(&plain)) } else { (text_of(&vec), proto_of(&vec)) };
            expect_text(&t, Some($typ), l.clone(), $num(model)).map_err(|e| format!("value {model:?}: {e}"))?;
            expect_proto(&p, l.clone(), $pk, $f(model))?;
            // the one-off write of the same value
            let mut enc = TextEncoder::new(Vec::new());
            $once(&mut enc, c.holder, model);
            expect_text(&enc.writer, None, l.clone(), $num(model)).map_err(|e| format!("one-off write of {model:?}: {e}"))?;
            let mut enc = ProtoEncoder::new(Vec::new());
            enc.write_help(MetricName::from_str("m"), "h").unwrap();
            $onep(&mut enc, c.holder, model);
            enc.flush().unwrap();
            expect_proto(&enc.writer, l, $pk, $f(model))?;
            ctx.label(&format!("holder {}", c.holder));
            ctx.label_if(big($num(model)), "beyond 2^53, or not an ordinary float");
            ctx.nontrivial_if(done >= 2);
            Ok(())
        }
    };
}
fn same_bits(a: Num, b: Num) -> bool {
    match (a, b) { (Num::Int(a), Num::Int(b)) => a == b, (Num::F(a), Num::F(b)) => same(a, b), _ => false }
}
fn big(n: Num) -> bool {
    match n { Num::Int(x) => x.unsigned_abs() > 1 << 53, Num::F(x) => !x.is_normal() || x.abs() > 1e15 }
}
fn once<S: MetricEncoding<E, Metadata = ()>, E: Encoding>(enc: &mut E, holder: u8, s: S) where E::Err: std::fmt::Debug {
    let n = MetricName::from_str("m");
    if holder == 0 { s.collect_into(&(), NoLabels, n, enc).unwrap() } else { s.collect_into(&(), GRP, n, enc).unwrap() }
}
macro_rules! w { ($f:ident) => { |e: &mut _, h: u8, v| { let n = MetricName::from_str("m"); if h == 0 { $f(e, n, NoLabels, v).unwrap() } else { $f(e, n, GRP, v).unwrap() } } } }
macro_rules! ops5 { ($m:expr, $op:expr, $v:expr) => { match $op { 0 => $m.inc(), 1 => $m.inc_by($v), 2 => $m.dec(), 3 => $m.dec_by($v), _ => $m.set($v) } } }
macro_rules! vops5 { ($m:expr, $op:expr, $v:expr) => { match $op { 0 => $m.inc(GRP), 1 => $m.inc_by(GRP, $v), 2 => $m.dec(GRP), 3 => $m.dec_by(GRP, $v), _ => $m.set(GRP, $v) } } }

scalar_check!(counter, u64, Counter, CounterVec<TwoSet>, |v: u64| v,
    |m: u64, op, v: u64| if op % 2 == 0 { m.checked_add(1) } else { m.checked_add(v) },
    |m: &Counter, op, v| if op % 2 == 0 { m.inc() } else { m.inc_by(v) },
    |m: &CounterVec<TwoSet>, op, v| if op % 2 == 0 { m.inc(GRP) } else { m.inc_by(GRP, v) },
    |m: measured::metric::counter::CounterLockGuard, op, v| if op % 2 == 0 { m.inc() } else { m.inc_by(v) },
    |m: &mut Counter, op, v| if op % 2 == 0 { m.inc_mut() } else { m.inc_by_mut(v) },
    |m: &mut CounterVec<TwoSet>, op, v| if op % 2 == 0 { m.inc_mut(GRP) } else { m.inc_by_mut(GRP, v) },
    |m: measured::metric::counter::CounterMut, op, v| if op % 2 == 0 { m.inc() } else { m.inc_by(v) },
    |m: &CounterState| m.count.load(Relaxed), "counter", 3, |x: u64| Num::Int(x as i128), |x: u64| x as f64,
    w!(write_counter), |e: &mut ProtoEncoder<Vec<u8>>, h, v| once(e, h, CounterState::new(v)));
scalar_check!(gauge, i64, Gauge, GaugeVec<TwoSet>, |v: i64| v,
    |m: i64, op, v: i64| match op { 0 => m.checked_add(1), 1 => m.checked_add(v), 2 => m.checked_sub(1), 3 => m.checked_sub(v), _ => Some(v) },
    |m: &Gauge, op, v| ops5!(m, op, v), |m: &GaugeVec<TwoSet>, op, v| vops5!(m, op, v),
    |m: measured::metric::gauge::GaugeLockGuard, op, v| ops5!(m, op, v),
    |m: &mut Gauge, op, v| ops5!(m.get_metric_mut(), op, v),
    |m: &mut GaugeVec<TwoSet>, op, v| { let id = m.with_labels(GRP); ops5!(m.get_metric_mut(id), op, v) },
    |m: measured::metric::gauge::GaugeMut, op, v| ops5!(m, op, v),
    |m: &GaugeState| m.count.load(Relaxed), "gauge", 2, |x: i64| Num::Int(x as i128), |x: i64| x as f64,
    w!(write_gauge), |e: &mut ProtoEncoder<Vec<u8>>, h, v| once(e, h, GaugeState::new(v)));
scalar_check!(float, Fl, FloatGauge, FloatGaugeVec<TwoSet>, |v: Fl| v.0,
    |m: f64, op, v: f64| Some(match op { 0 => m + 1.0, 1 => m + v, 2 => m - 1.0, 3 => m - v, _ => v }),
    |m: &FloatGauge, op, v| ops5!(m, op, v), |m: &FloatGaugeVec<TwoSet>, op, v| vops5!(m, op, v),
    |m: measured::metric::gauge::FloatGaugeLockGuard, op, v| ops5!(m, op, v),
    |m: &mut FloatGauge, op, v| ops5!(m.get_metric_mut(), op, v),
    |m: &mut FloatGaugeVec<TwoSet>, op, v| { let id = m.with_labels(GRP); ops5!(m.get_metric_mut(id), op, v) },
    |m: measured::metric::gauge::FloatGaugeMut, op, v| ops5!(m, op, v),
    |m: &FloatGaugeState| m.count.get(), "gauge", 2, Num::F, |x: f64| x,
    w!(write_float_gauge), |e: &mut ProtoEncoder<Vec<u8>>, h, v| once(e, h, FloatGaugeState::new(v)));

/// The atomic float behind the float gauge and the histogram sum, used on its own.
fn atomic(c: &(Fl, Vec<(u8, Fl)>), ctx: &mut Ctx) -> Check {
    use measured::metric::gauge::AtomicF64;
    for (a, z) in [(AtomicF64::ZERO, 0.0), (AtomicF64::default(), 0.0)] {
        if !same(a.get(), z) {
            return Err(format!("starts at {:?}", a.get()));
        }
    }
    let mut a = AtomicF64::new(c.0.0);
    let mut model = c.0.0;
    for (i, (op, v)) in c.1.iter().enumerate() {
        let v = v.0;
        match op % 4 {
            0 => { a.inc_by(v); model += v }
            1 => { a.dec_by(v); model -= v }
            2 => { a.set(v); model = v }
            _ => { a.set_mut(v); model = v }
        }
        let got = if i % 2 == 0 { a.get() } else { a.get_ex() };
        if !same(got, model) {
            return Err(format!("op {i}: {got:?}, expected {model:?}"));
        }
    }
    ctx.nontrivial_if(c.1.len() >= 2);
    Ok(())
}

fn case<T: Clone + std::fmt::Debug + 'static>(v: BoxedStrategy<T>) -> impl Strategy<Value = Case<T>> {
    (0u8..3, prop::collection::vec((prop_oneof![4 => 0u8..4, 1 => Just(4u8)], v, 0u8..4).prop_map(|(op, v, via)| Op { op, v, via }), 0..40)).prop_map(|(holder, ops)| Case { holder, ops })
}
pub fn c08() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        rule: "generated op sequences over the whole range of each type (ops that would overflow are left out), through every way of performing them, the state compared after each op and the text and protobuf exports at the end; non-trivial = at least two ops applied",
        arms: vec![
            Arm::new("counter", 150000, 2000000, || case(any_u64()), counter),
            Arm::new("gauge", 150000, 2000000, || case(any_i64()), gauge),
            Arm::new("float", 150000, 2000000, || case(any_f64()), float),
            Arm::new("atomic", 40000, 400000, || (any_f64(), prop::collection::vec((0u8..4, any_f64()), 0..20)), atomic),
        ],
    }
}
