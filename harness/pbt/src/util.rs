//! Common generators and helpers.
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

/// A float that serialises by its bits (JSON has no NaN, and must keep -0.0).
#[derive(Clone, Copy)]
pub struct Fl(pub f64);
impl std::fmt::Debug for Fl {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for Fl {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?} {:016x}", self.0, self.0.to_bits()))
    }
}
impl<'de> Deserialize<'de> for Fl {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let h = s.split(' ').next_back().unwrap();
        u64::from_str_radix(h, 16).map(|b| Fl(f64::from_bits(b))).map_err(serde::de::Error::custom)
    }
}

fn u<T: std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    Union::new_weighted(v).boxed()
}

/// Every class of f64.
pub fn any_f64() -> BoxedStrategy<Fl> {
    u(vec![
        (4, (-1e6..1e6f64).boxed()),
        (3, (-40i32..40).prop_map(|x| x as f64 / 4.0).boxed()),
        (3, any::<u64>().prop_map(f64::from_bits).boxed()),
        (4, prop::sample::select(vec![
            0.0, -0.0, 1.0, -1.0, 0.1, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::INFINITY,
            f64::NEG_INFINITY, f64::NAN, -f64::NAN, 1e21, 1e-7, 123456789012345680.0, 9007199254740993.0, f64::EPSILON, 1e16, 1e17, 0.30000000000000004,
        ]).boxed()),
    ])
    .prop_map(Fl)
    .boxed()
}

/// Values over the whole u64 range with its edges.
pub fn any_u64() -> BoxedStrategy<u64> {
    u(vec![
        (3, (0u64..10).boxed()),
        (2, any::<u64>().boxed()),
        (2, prop::sample::select(vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 53, (1 << 53) + 1, u32::MAX as u64, 1 << 32, 1 << 62]).boxed()),
        (1, (0u32..64).prop_map(|s| 1u64 << s).boxed()),
    ])
}
pub fn any_i64() -> BoxedStrategy<i64> {
    u(vec![
        (3, (-10i64..10).boxed()),
        (2, any::<i64>().boxed()),
        (2, prop::sample::select(vec![0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 53, -(1 << 53) - 1, i32::MAX as i64, i32::MIN as i64, 1 << 62]).boxed()),
    ])
}

/// Hostile strings: escapes, newlines, things that look like exposition syntax, all of Unicode, long ones.
pub fn any_text() -> BoxedStrategy<String> {
    let frag = u(vec![
        (3, prop::sample::select(vec![
            "\\", "\"", "\n", "\\n", "\\\"", "\\\\", "\r", "\t", " ", "", "{", "}", ",", "=", "#", "# HELP x y", "# TYPE x counter", "\u{0}", "\u{7f}",
            "\u{2028}", "\u{feff}", "é", "日本", "🦀", "\u{10ffff}", "le=\"+Inf\"", "\"} 1\nfake_total 7\n", "\n\n", "+Inf", "NaN", "_total", "a", "%s", "\u{85}", "'", "`",
        ]).prop_map(str::to_owned).boxed()),
        (3, "[a-zA-Z0-9_/.:-]{0,12}".boxed()),
        (2, "\\PC{0,6}".boxed()),
        (1, prop::collection::vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>()).boxed()),
    ]);
    // lengths around those where a varint of it, or of something that contains it, gets longer
    let length = prop_oneof![3 => prop::sample::select(vec![62usize, 63, 119, 120, 126, 127, 128, 129, 255, 256, 1000, 2047, 16383, 16384]), 3 => 80usize..140, 1 => 16320usize..16400];
    let long = (length, prop::sample::select(vec!["x", "\\", "\n", "é", "🦀", "ab\""]))
        .prop_map(|(n, s)| s.repeat(n / s.len() + 1)[..].chars().take(n).collect::<String>());
    let short = prop::collection::vec(frag, 0..6).prop_map(|v| v.concat());
    // special characters deep inside, and near, long plain stretches
    let deep = prop::collection::vec((prop_oneof![3 => 0usize..40, 3 => 100usize..5000, 1 => 5000usize..70000], prop::sample::select(vec!['x', ' ', 'é', '_']), short.clone()), 1..4)
        .prop_map(|v| v.into_iter().map(|(n, c, s)| c.to_string().repeat(n) + &s).collect::<String>());
    u(vec![
        (60, short.boxed()),
        (2, long.boxed()),
        (2, deep.boxed()),
        (8, Just(String::new()).boxed()),
    ])
}

pub fn metric_name() -> BoxedStrategy<String> {
    "[a-zA-Z_:][a-zA-Z0-9_:]{0,12}".boxed()
}

/// Text from a byte stream for messages.
pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.len() > 1500 { format!("{}...", s.chars().take(1500).collect::<String>()) } else { s.into_owned() }
}
