//! An independent parser of the Prometheus text format 0.0.4
//! (<https://prometheus.io/docs/instrumenting/exposition_formats/>).
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Sample {
    pub name: String,
    pub labels: Vec<(String, String)>,
    pub value: String,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Family {
    pub name: String,
    pub help: Option<String>,
    pub typ: Option<String>,
    pub samples: Vec<Sample>,
}

pub fn is_metric_name(s: &str) -> bool {
    let mut it = s.bytes();
    let head = |b: u8| b.is_ascii_alphabetic() || b == b'_' || b == b':';
    it.next().is_some_and(head) && it.all(|b| head(b) || b.is_ascii_digit())
}
pub fn is_label_name(s: &str) -> bool {
    is_metric_name(s) && !s.contains(':')
}

fn skip_ws(s: &str) -> &str {
    s.trim_start_matches([' ', '\t'])
}

fn unescape(s: &str, quote: bool) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('\\') => out.push('\\'),
            Some('n') => out.push('\n'),
            Some('"') if quote => out.push('"'),
            other => return Err(format!("invalid escape \\{other:?} in {s:?}")),
        }
    }
    Ok(out)
}

fn parse_labels(mut s: &str) -> Result<(Vec<(String, String)>, &str), String> {
    // s starts after '{'
    let mut out = vec![];
    loop {
        s = skip_ws(s);
        if let Some(rest) = s.strip_prefix('}') {
            return Ok((out, rest));
        }
        let eq = s.find('=').ok_or_else(|| format!("no '=' in labels at {s:?}"))?;
        let name = s[..eq].trim_matches([' ', '\t']);
        if !is_label_name(name) {
            return Err(format!("bad label name {name:?}"));
        }
        s = skip_ws(&s[eq + 1..]);
        s = s.strip_prefix('"').ok_or_else(|| format!("label value not quoted at {s:?}"))?;
        let mut end = None;
        let mut esc = false;
        for (i, b) in s.bytes().enumerate() {
            if esc {
                esc = false
            } else if b == b'\\' {
                esc = true
            } else if b == b'"' {
                end = Some(i);
                break;
            }
        }
        let end = end.ok_or_else(|| format!("unterminated label value at {s:?}"))?;
        out.push((name.to_owned(), unescape(&s[..end], true)?));
        s = skip_ws(&s[end + 1..]);
        if let Some(rest) = s.strip_prefix(',') {
            s = rest;
        } else if !s.starts_with('}') {
            return Err(format!("expected ',' or '}}' at {s:?}"));
        }
    }
}

/// `contiguous`: also require all lines of a family to be one group, with its help and type lines
/// before its samples.
pub fn parse(doc: &[u8], contiguous: bool) -> Result<Vec<Family>, String> {
    let doc = std::str::from_utf8(doc).map_err(|e| format!("not UTF-8: {e}"))?;
    if doc.is_empty() {
        return Ok(vec![]);
    }
    if !doc.ends_with('\n') {
        return Err(format!("last line does not end with a newline: {:?}", &doc[doc.len().saturating_sub(60)..].to_string()));
    }
    let mut fams: Vec<Family> = vec![];
    let mut index: HashMap<String, usize> = HashMap::new();
    let mut current: Option<usize> = None;
    let mut enter = |fams: &mut Vec<Family>, name: &str| -> Result<usize, String> {
        let i = *index.entry(name.to_owned()).or_insert_with(|| {
            fams.push(Family { name: name.to_owned(), ..Family::default() });
            fams.len() - 1
        });
        if contiguous && current != Some(i) && i + 1 != fams.len() {
            return Err(format!("lines of {name} are not contiguous"));
        }
        current = Some(i);
        Ok(i)
    };
    for line in doc[..doc.len() - 1].split('\n') {
        let l = skip_ws(line);
        if l.is_empty() {
            continue;
        }
        if let Some(c) = l.strip_prefix('#') {
            let c = skip_ws(c);
            let (kw, rest) = c.split_once([' ', '\t']).unwrap_or((c, ""));
            if kw != "HELP" && kw != "TYPE" {
                continue;
            }
            let rest = skip_ws(rest);
            let (name, rest) = rest.split_once([' ', '\t']).unwrap_or((rest, ""));
            if !is_metric_name(name) {
                return Err(format!("bad metric name {name:?} in {line:?}"));
            }
            let i = enter(&mut fams, name)?;
            let f = &mut fams[i];
            if !f.samples.is_empty() {
                return Err(format!("{kw} of {name} after its samples"));
            }
            if kw == "HELP" {
                if f.help.is_some() {
                    return Err(format!("second HELP for {name}"));
                }
                f.help = Some(unescape(skip_ws(rest), false)?);
            } else {
                if f.typ.is_some() {
                    return Err(format!("second TYPE for {name}"));
                }
                let t = rest.trim_matches([' ', '\t']);
                if !["counter", "gauge", "histogram", "summary", "untyped"].contains(&t) {
                    return Err(format!("bad type {t:?} for {name}"));
                }
                f.typ = Some(t.to_owned());
            }
            continue;
        }
        let end = l.find(['{', ' ', '\t']).ok_or_else(|| format!("no value in {line:?}"))?;
        let name = &l[..end];
        if !is_metric_name(name) {
            return Err(format!("bad metric name {name:?} in {line:?}"));
        }
        let rest = skip_ws(&l[end..]);
        let (labels, rest) = match rest.strip_prefix('{') {
            Some(r) => parse_labels(r)?,
            None => (vec![], rest),
        };
        let rest: Vec<&str> = rest.split([' ', '\t']).filter(|x| !x.is_empty()).collect();
        if rest.len() != 1 {
            return Err(format!("expected one value in {line:?}"));
        }
        if rest[0].parse::<f64>().is_err() {
            return Err(format!("bad number {:?} in {line:?}", rest[0]));
        }
        let mut fam = name;
        for suf in ["_bucket", "_sum", "_count"] {
            if let Some(base) = name.strip_suffix(suf) {
                if fams.iter().any(|f| f.name == base && f.typ.as_deref() == Some("histogram")) {
                    fam = base;
                }
            }
        }
        let i = enter(&mut fams, fam)?;
        fams[i].samples.push(Sample { name: name.to_owned(), labels, value: rest[0].to_owned() });
    }
    Ok(fams)
}

/// A number an export has to hold.
#[derive(Clone, Copy, Debug)]
pub enum Num {
    Int(i128),
    F(f64),
}
impl Num {
    pub fn matches(&self, raw: &str) -> bool {
        match *self {
            Num::Int(x) => match raw.parse::<i128>() {
                Ok(y) => x == y,
                // a float spelling of a small enough integer is the same number
                Err(_) => raw.parse::<f64>().is_ok_and(|f| x.unsigned_abs() < 1 << 53 && f == x as f64),
            },
            Num::F(x) => raw.parse::<f64>().is_ok_and(|y| same(x, y)),
        }
    }
}
/// Same float: equal bits, or both NaN.
pub fn same(x: f64, y: f64) -> bool {
    x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan())
}

/// An expected sample.
#[derive(Clone, Debug)]
pub struct Want {
    pub name: String,
    pub labels: Vec<(String, String)>,
    pub value: Num,
}
impl Want {
    pub fn matches(&self, s: &Sample) -> bool {
        if self.name != s.name || self.labels.len() != s.labels.len() || !self.value.matches(&s.value) {
            return false;
        }
        self.labels.iter().zip(&s.labels).all(|((an, av), (bn, bv))| an == bn && (av == bv || (an == "le" && le_eq(av, bv))))
    }
}
fn le_eq(a: &str, b: &str) -> bool {
    matches!((a.parse::<f64>(), b.parse::<f64>()), (Ok(x), Ok(y)) if same(x, y))
}

/// The samples in this order.
pub fn match_ordered(want: &[Want], got: &[Sample]) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            Some(g) if w.matches(g) => {}
            g => return Err(format!("sample {i}: expected {w:?}, got {g:?}")),
        }
    }
    if got.len() > want.len() {
        return Err(format!("unexpected extra sample {:?}", got[want.len()]));
    }
    Ok(())
}

/// The groups of samples, each in order and contiguous, groups in any order (label groups of a
/// collection come in no particular order). Each group is found by its first sample's name and labels.
pub fn match_groups(want: &[Vec<Want>], got: &[Sample]) -> Result<(), String> {
    let mut by: HashMap<(&str, &[(String, String)]), usize> = HashMap::new();
    for (i, g) in want.iter().enumerate() {
        if by.insert((&g[0].name, &g[0].labels), i).is_some() {
            return Err(format!("ORACLE ERROR: two expected groups start with {:?}", g[0]));
        }
    }
    let mut seen = vec![false; want.len()];
    let mut i = 0;
    while i < got.len() {
        let Some(&g) = by.get(&(got[i].name.as_str(), got[i].labels.as_slice())) else {
            return Err(format!("unexpected sample {:?}", got[i]));
        };
        if std::mem::replace(&mut seen[g], true) {
            return Err(format!("label group exported twice: {:?}", got[i]));
        }
        let end = (i + want[g].len()).min(got.len());
        match_ordered(&want[g], &got[i..end])?;
        i += want[g].len();
    }
    if let Some(m) = seen.iter().position(|s| !s) {
        return Err(format!("label group missing from the export: {:?}", want[m][0]));
    }
    Ok(())
}
