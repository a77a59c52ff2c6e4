//! Plans: what each thread does to one metric family.
//! kind=counter;store=sparse;set=enum;log=1;dec=0;rounds=20;spin=100;seed=1;T=u0*3 s|r0 c s

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    /// n updates through the convenience method
    Update,
    /// look the label up once, then n updates by its id
    ById,
    /// n updates while holding one guard
    Held,
    /// look up only (creates a dynamic value, no metric)
    Lookup,
    Remove,
    Scrape,
    Cardinality,
    Set,
    Wait,
}
#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub what: What,
    pub key: usize,
    pub n: u32,
}
#[derive(Debug)]
pub struct Plan {
    pub kind: String,
    pub store: String,
    pub set: String,
    pub log: bool,
    pub dec: bool,
    pub rounds: usize,
    pub spin: u32,
    pub seed: u64,
    pub threads: Vec<Vec<Op>>,
}

pub fn parse(line: &str) -> Plan {
    let mut p = Plan { kind: String::new(), store: String::new(), set: String::new(), log: false, dec: false, rounds: 1, spin: 0, seed: 0, threads: vec![] };
    for part in line.split(';') {
        let (k, v) = part.split_once('=').expect("part");
        match k {
            "kind" => p.kind = v.into(),
            "store" => p.store = v.into(),
            "set" => p.set = v.into(),
            "log" => p.log = v == "1",
            "dec" => p.dec = v == "1",
            "rounds" => p.rounds = v.parse().unwrap(),
            "spin" => p.spin = v.parse().unwrap(),
            "seed" => p.seed = v.parse().unwrap(),
            "T" => p.threads = v.split('|').map(|t| t.split_whitespace().map(op).collect()).collect(),
            _ => panic!("unknown part {k}"),
        }
    }
    p
}
fn op(s: &str) -> Op {
    let what = match &s[..1] {
        "u" => What::Update,
        "l" => What::ById,
        "g" => What::Held,
        "x" => What::Lookup,
        "r" => What::Remove,
        "s" => What::Scrape,
        "c" => What::Cardinality,
        "t" => What::Set,
        "w" => What::Wait,
        _ => panic!("unknown op {s}"),
    };
    let rest = &s[1..];
    let (key, n) = rest.split_once('*').unwrap_or((rest, "1"));
    Op { what, key: if key.is_empty() { 0 } else { key.parse().unwrap() }, n: n.parse().unwrap() }
}
