//! An independent decoder of the length-delimited protobuf exposition
//! (<https://github.com/prometheus/client_model/blob/master/io/prometheus/client/metrics.proto>).

#[derive(Clone, Debug, PartialEq)]
pub struct PMetric {
    pub labels: Vec<(String, String)>,
    /// (field number of the value message: 2 gauge, 3 counter; value)
    pub kind: u64,
    pub value: f64,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct PFamily {
    pub name: Option<String>,
    pub help: Option<String>,
    pub typ: Option<u64>,
    pub metrics: Vec<PMetric>,
}

enum Val<'a> {
    Varint(u64),
    Fixed64(u64),
    Bytes(&'a [u8]),
}

fn varint(b: &mut &[u8]) -> Result<u64, String> {
    let mut x: u64 = 0;
    for i in 0..10 {
        let (&c, rest) = b.split_first().ok_or("truncated varint")?;
        *b = rest;
        if i == 9 && c > 1 {
            return Err("varint too long".into());
        }
        x |= ((c & 0x7f) as u64) << (7 * i);
        if c & 0x80 == 0 {
            return Ok(x);
        }
    }
    Err("varint too long".into())
}

fn fields(mut b: &[u8]) -> Result<Vec<(u64, Val<'_>)>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let key = varint(&mut b)?;
        let tag = key >> 3;
        if tag == 0 {
            return Err("field number 0".into());
        }
        let v = match key & 7 {
            0 => Val::Varint(varint(&mut b)?),
            1 => {
                if b.len() < 8 {
                    return Err("truncated double".into());
                }
                let v = u64::from_le_bytes(b[..8].try_into().unwrap());
                b = &b[8..];
                Val::Fixed64(v)
            }
            2 => {
                let n = varint(&mut b)? as usize;
                if n > b.len() {
                    return Err(format!("length {n} of field {tag} exceeds the {} bytes left", b.len()));
                }
                let v = &b[..n];
                b = &b[n..];
                Val::Bytes(v)
            }
            w => return Err(format!("wire type {w} of field {tag}")),
        };
        out.push((tag, v));
    }
    Ok(out)
}

fn text(b: &[u8]) -> Result<String, String> {
    String::from_utf8(b.to_vec()).map_err(|e| e.to_string())
}

fn set<T>(slot: &mut Option<T>, v: T, what: &str) -> Result<(), String> {
    if slot.replace(v).is_some() {
        return Err(format!("{what} given twice"));
    }
    Ok(())
}

fn label(b: &[u8]) -> Result<(String, String), String> {
    let (mut n, mut v) = (None, None);
    for (tag, val) in fields(b)? {
        match (tag, val) {
            (1, Val::Bytes(b)) => set(&mut n, text(b)?, "label name")?,
            (2, Val::Bytes(b)) => set(&mut v, text(b)?, "label value")?,
            (t, _) => return Err(format!("unexpected field {t} in LabelPair")),
        }
    }
    Ok((n.ok_or("label without name")?, v.unwrap_or_default()))
}

fn metric(b: &[u8]) -> Result<PMetric, String> {
    let mut labels = vec![];
    let mut value: Option<(u64, f64)> = None;
    for (tag, val) in fields(b)? {
        match (tag, val) {
            (1, Val::Bytes(b)) => labels.push(label(b)?),
            (t @ (2 | 3 | 5), Val::Bytes(b)) => {
                let mut x = None;
                for (tag, val) in fields(b)? {
                    match (tag, val) {
                        (1, Val::Fixed64(v)) => set(&mut x, f64::from_bits(v), "value")?,
                        (t, _) => return Err(format!("unexpected field {t} in value message")),
                    }
                }
                set(&mut value, (t, x.unwrap_or(0.0)), "metric value")?
            }
            (t, _) => return Err(format!("unexpected field {t} in Metric")),
        }
    }
    let (kind, value) = value.ok_or("metric without a value")?;
    Ok(PMetric { labels, kind, value })
}

pub fn decode(mut b: &[u8]) -> Result<Vec<PFamily>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        let n = varint(&mut b)? as usize;
        if n > b.len() {
            return Err(format!("family {}: length {n} exceeds the {} bytes left", out.len(), b.len()));
        }
        let msg = &b[..n];
        b = &b[n..];
        let mut f = PFamily::default();
        for (tag, val) in fields(msg).map_err(|e| format!("family {}: {e}", out.len()))? {
            match (tag, val) {
                (1, Val::Bytes(b)) => set(&mut f.name, text(b)?, "family name")?,
                (2, Val::Bytes(b)) => set(&mut f.help, text(b)?, "family help")?,
                (3, Val::Varint(v)) => set(&mut f.typ, v, "family type")?,
                (4, Val::Bytes(b)) => f.metrics.push(metric(b).map_err(|e| format!("family {:?}: {e}", f.name))?),
                (t, _) => return Err(format!("unexpected field {t} in MetricFamily {:?}", f.name)),
            }
        }
        out.push(f);
    }
    Ok(out)
}
