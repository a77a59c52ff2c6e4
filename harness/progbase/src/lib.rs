//! What the generated programs of C14-C17 are compiled against.
pub use indexmap;
pub use lasso;
pub use measured;
pub use measured_prometheus_protobuf as proto;
pub use phf;

use measured::label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor};
use measured::metric::group::Encoding;
use measured::metric::name::MetricNameEncoder;
use measured::metric::{counter::CounterState, MetricEncoding, MetricFamilyEncoding};
use measured::{Counter, FloatGauge, Gauge, MetricGroup};

pub fn mk_counter(n: u64) -> Counter {
    let c = Counter::new();
    c.inc_by(n);
    c
}

pub fn mk_gauge(n: i64) -> Gauge {
    let c = Gauge::new();
    c.set(n);
    c
}

pub fn mk_float(n: f64) -> FloatGauge {
    let c = FloatGauge::new();
    c.set(n);
    c
}

pub fn rodeo(names: &[&'static str]) -> lasso::RodeoReader {
    names.iter().copied().collect::<lasso::Rodeo>().into_reader()
}

/// A metric family implemented by hand.
#[derive(Default)]
pub struct Handmade(pub u64);

impl<T: Encoding> MetricFamilyEncoding<T> for Handmade
where
    CounterState: MetricEncoding<T>,
{
    fn collect_family_into(&self, name: impl MetricNameEncoder, enc: &mut T) -> Result<(), T::Err> {
        CounterState::write_type(&name, enc)?;
        CounterState::new(self.0).collect_into(&(), measured::label::NoLabels, &name, enc)
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

struct Text<'a>(&'a mut String);
impl LabelVisitor for Text<'_> {
    type Output = ();
    fn write_int(self, x: i64) {
        *self.0 += &format!("i{x}");
    }
    fn write_float(self, x: f64) {
        *self.0 += &format!("f{x:?}");
    }
    fn write_str(self, x: &str) {
        *self.0 += &format!("s{}", hex(x.as_bytes()));
    }
}

/// A label value as `i<int>`, `f<float>` or `s<hex of the text>`.
pub fn value(v: &impl LabelValue) -> String {
    let mut s = String::new();
    v.visit(Text(&mut s));
    s
}

struct Pairs(Vec<String>);
impl LabelGroupVisitor for Pairs {
    type Output = ();
    fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
        let name: &str = name.as_str();
        self.0.push(format!("{name}={}", value(x)));
    }
}

/// The labels of a group in the order it visits them.
pub fn labels(g: &impl LabelGroup) -> String {
    let mut p = Pairs(vec![]);
    g.visit_values(&mut p);
    p.0.join(",")
}

/// A writer whose bytes can still be had when the encoder owns it.
#[derive(Clone, Default)]
pub struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);
impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Prints the text export of a group.
pub fn export_text<G: MetricGroup<measured::text::BufferedTextEncoder>>(g: &G) {
    let mut t = measured::text::BufferedTextEncoder::new();
    g.collect_group_into(&mut t).unwrap();
    println!("text {}", hex(&t.finish()));
}

/// Prints the protobuf export of a group.
pub fn export_proto<G: MetricGroup<proto::ProtoEncoder<Shared>>>(g: &G) {
    let w = Shared::default();
    let mut p = proto::ProtoEncoder::new(w.clone());
    g.collect_group_into(&mut p).unwrap();
    p.flush().unwrap();
    println!("proto {}", hex(&w.0.borrow()));
}

/// Prints the result of one generated program.
pub fn run(i: usize, f: impl FnOnce() + std::panic::UnwindSafe) {
    println!("@@ {i}");
    if let Err(e) = std::panic::catch_unwind(f) {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        println!("panic {}", m.unwrap_or_default().replace('\n', " "));
    }
    println!("@@ end");
}

/// One family as a group.
pub struct One<F>(pub F);
impl<F: MetricFamilyEncoding<T>, T: Encoding> MetricGroup<T> for One<F> {
    fn collect_group_into(&self, enc: &mut T) -> Result<(), T::Err> {
        self.0.collect_family_into(measured::metric::name::MetricName::from_str("m"), enc)
    }
}
