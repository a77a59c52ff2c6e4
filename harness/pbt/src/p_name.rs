//! C13: names are validated and composed exactly.
use crate::driver::*;
use crate::text::{is_label_name, is_metric_name};
use crate::util::*;
use measured::label::LabelName;
use measured::metric::name::{Bucket, Count, InvalidMetricName, MetricName, MetricNameEncoder, Sum, Total, WithNamespace};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Leaks: constructors want `&'static str`.
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}
fn encoded(n: &impl MetricNameEncoder) -> Result<String, String> {
    let mut b = vec![];
    n.encode_utf8(&mut b).map_err(|e| format!("{e:?}"))?;
    if n.encode_len() != b.len() {
        return Err(format!("announces {} bytes but encodes to {} ({:?})", n.encode_len(), b.len(), show(&b)));
    }
    String::from_utf8(b).map_err(|e| e.to_string())
}
fn same(what: &str, n: &impl MetricNameEncoder, want: &str) -> Check {
    let got = encoded(n).map_err(|e| format!("{what}: {e}"))?;
    if got == want { Ok(()) } else { Err(format!("{what} encodes to {got:?}, expected {want:?}")) }
}

fn validity(s: &String, ctx: &mut Ctx) -> Check {
    let ok = is_metric_name(s);
    match (MetricName::try_from_str(s), ok) {
        (Ok(n), true) => same("try_from_str", &n, s)?,
        (Ok(_), false) => return Err(format!("metric name {s:?} accepted at run time")),
        (Err(e), true) => return Err(format!("metric name {s:?} rejected at run time: {e:?}")),
        (Err(e), false) => {
            let chars = s.bytes().any(|b| !(b.is_ascii_alphanumeric() || b == b'_' || b == b':'));
            let digit = s.as_bytes().first().is_some_and(u8::is_ascii_digit);
            let right = match e {
                InvalidMetricName::Empty => s.is_empty(),
                InvalidMetricName::InvalidChars => chars,
                InvalidMetricName::StartsWithNumber => digit,
            };
            if !right {
                return Err(format!("metric name {s:?} rejected as {e:?}"));
            }
        }
    }
    let l = leak(s);
    match (catch(|| encoded(&MetricName::from_str(l))), ok) {
        (Ok(r), true) if r.as_deref() == Ok(s.as_str()) => {}
        (Ok(r), true) => return Err(format!("MetricName::from_str({s:?}) encodes to {r:?}")),
        (Ok(_), false) => return Err(format!("MetricName::from_str({s:?}) accepted")),
        (Err(p), true) => return Err(format!("MetricName::from_str({s:?}) rejected: {p}")),
        (Err(_), false) => {}
    }
    match (catch(|| encoded(&WithNamespace::new(l, MetricName::from_str("x")))), ok) {
        (Ok(r), true) if r == Ok(format!("{s}_x")) => {}
        (Err(_), false) => {}
        (r, _) => return Err(format!("WithNamespace::new({s:?}, x) gives {r:?}")),
    }
    match (catch(|| encoded(&MetricName::from_str("x").in_namespace(l))), ok) {
        (Ok(r), true) if r == Ok(format!("{s}_x")) => {}
        (Err(_), false) => {}
        (r, _) => return Err(format!("in_namespace({s:?}) gives {r:?}")),
    }
    match (catch(|| LabelName::from_str(s).as_str().to_owned()), is_label_name(s)) {
        (Ok(n), true) if n == *s => {}
        (Ok(n), true) => return Err(format!("LabelName::from_str({s:?}) is {n:?}")),
        (Ok(_), false) => return Err(format!("label name {s:?} accepted")),
        (Err(p), true) => return Err(format!("label name {s:?} rejected: {p}")),
        (Err(_), false) => {}
    }
    ctx.label(match (ok, is_label_name(s)) {
        (true, true) => "valid metric and label name",
        (true, false) => "valid metric name only",
        _ => "invalid",
    });
    ctx.nontrivial_if(!s.is_empty());
    Ok(())
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Wrap {
    Ns(u8),
    Total,
    Count,
    Sum,
    Bucket,
    Ref,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nest {
    name: String,
    namespaces: Vec<String>,
    /// innermost first
    wraps: Vec<Wrap>,
}
macro_rules! level {
    ($f:ident, $next:path) => {
        fn $f<T: MetricNameEncoder>(n: T, ns: &[&'static str], w: &[Wrap], want: String) -> Check {
            let Some((first, rest)) = w.split_first() else { return same("nested name", &n, &want) };
            match first {
                Wrap::Ns(i) => {
                    let s = ns[*i as usize % ns.len()];
                    let want = format!("{s}_{want}");
                    let n = WithNamespace::new(s, n);
                    // its own with_suffix, besides the trait's
                    match rest.first() {
                        Some(Wrap::Total) if rest.len() == 1 => same("namespace then suffix", &n.with_suffix(Total), &format!("{want}_total")),
                        _ => $next(n, ns, rest, want),
                    }
                }
                Wrap::Total => $next(MetricNameEncoder::with_suffix(n, Total), ns, rest, format!("{want}_total")),
                Wrap::Count => $next(MetricNameEncoder::with_suffix(n, Count), ns, rest, format!("{want}_count")),
                Wrap::Sum => $next(MetricNameEncoder::with_suffix(n, Sum), ns, rest, format!("{want}_sum")),
                Wrap::Bucket => $next(MetricNameEncoder::with_suffix(n, Bucket), ns, rest, format!("{want}_bucket")),
                Wrap::Ref => $next(n.by_ref(), ns, rest, want),
            }
        }
    };
}
fn last<T: MetricNameEncoder>(n: T, _: &[&'static str], _: &[Wrap], want: String) -> Check {
    same("nested name", &n, &want)
}
level!(level1, last);
level!(level2, level1);
level!(level3, level2);
level!(level4, level3);

fn nesting(c: &Nest, ctx: &mut Ctx) -> Check {
    let ns: Vec<&'static str> = c.namespaces.iter().map(|s| leak(s)).collect();
    let n = MetricName::try_from_str(&c.name).map_err(|e| format!("{:?} rejected: {e:?}", c.name))?;
    same("suffixed name", &n.with_suffix(Total), &format!("{}_total", c.name))?;
    same("namespaced name", &n.in_namespace(ns[0]).with_suffix(Bucket), &format!("{}_{}_bucket", ns[0], c.name))?;
    let w = &c.wraps[..c.wraps.len().min(4)];
    ctx.label(&format!("depth {}", w.len()));
    ctx.nontrivial_if(w.len() > 1);
    level4(n, &ns, w, c.name.clone())
}

pub fn c13() -> Property {
    let strings = || {
        let ch = prop_oneof![
            6 => prop::sample::select("azAZ09_:bq5".chars().collect::<Vec<_>>()),
            3 => (0u8..128).prop_map(|b| b as char),
            2 => prop::sample::select("-./@[`{^;,<=>~! \n\0éßÀΩ日🦀\u{130}\u{ff21}\u{660}\u{2d0}".chars().collect::<Vec<_>>()),
            1 => any::<char>(),
        ];
        prop_oneof![
            4 => prop::collection::vec(ch.clone(), 0..4).prop_map(|v| v.into_iter().collect::<String>()),
            3 => (metric_name(), any::<u16>(), ch, any::<bool>()).prop_map(|(mut n, at, c, replace)| {
                let i = at as usize * (n.len() + 1) >> 16;
                if replace && i < n.len() { n.remove(i); }
                n.insert(i, c);
                n
            }),
            2 => metric_name(),
            1 => any_text(),
            1 => (prop::sample::select(vec![64usize, 127, 128, 129, 300]), any::<bool>()).prop_map(|(n, bad)| "a".repeat(n) + if bad { "-" } else { "z" }),
        ]
    };
    let long = || prop_oneof![5 => metric_name(), 1 => prop::sample::select(vec![120usize, 126, 127, 128, 129, 16380, 16384]).prop_map(|n| "q".repeat(n))];
    let nest = move || {
        let wrap = prop_oneof![2 => (0u8..4).prop_map(Wrap::Ns), 1 => Just(Wrap::Total), 1 => Just(Wrap::Count), 1 => Just(Wrap::Sum), 1 => Just(Wrap::Bucket), 1 => Just(Wrap::Ref)];
        (long(), prop::collection::vec(metric_name(), 1..4), prop::collection::vec(wrap, 0..5)).prop_map(|(name, namespaces, wraps)| Nest { name, namespaces, wraps })
    };
    Property {
        id: "C13",
        level: "exploration",
        rule: "generated strings in and around both grammars given to every constructor that validates names, against an independent check of the grammars, and generated nestings of namespaces and suffixes; non-trivial = a non-empty string, or at least two wrappers",
        arms: vec![
            Arm::new("two bytes", 100_000, 400_000, || (0u8..128, 0u8..128).prop_map(|(b, c)| format!("{}{}", b as char, c as char)), validity),
            Arm::new("one byte", 1000, 1000, || (0u8..128).prop_map(|b| (b as char).to_string()), validity),
            Arm::new("strings", 600000, 6000000, strings, validity),
            Arm::new("nesting", 300000, 3000000, nest, nesting),
        ],
    }
}
