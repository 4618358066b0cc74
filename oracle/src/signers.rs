//! Allowed-signers lines, character by character.
use crate::gen::*;
use crate::spec::*;
use crate::util::*;
use chrono::{Local, NaiveDate, NaiveDateTime, TimeZone};

#[derive(Debug, PartialEq)]
pub struct Signer {
    pub principals: Vec<String>,
    pub ca: bool,
    pub ns: Option<Vec<String>>,
    pub after: Option<i64>,
    pub before: Option<i64>,
    pub key: Pk,
}

struct Tok<'a> {
    s: &'a [u8],
    p: usize,
}

impl Tok<'_> {
    fn skip(&mut self) -> bool {
        while self.p < self.s.len() && self.s[self.p] == b' ' {
            self.p += 1;
        }
        if self.p < self.s.len() && self.s[self.p] == b'#' {
            self.p = self.s.len();
        }
        self.p == self.s.len()
    }
    /// Err: bad quoting; None: no token
    fn next(&mut self, quotes: bool) -> Result<Option<String>, ()> {
        if self.skip() {
            return Ok(None);
        }
        if !quotes && self.s[self.p] == b'"' && self.s.ends_with(b"\"") {
            return Err(());
        }
        let a = self.p;
        while self.p < self.s.len() && !b" \"#".contains(&self.s[self.p]) {
            self.p += 1;
        }
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            while self.p < self.s.len() && self.s[self.p] != b'"' {
                self.p += 1;
            }
            if self.p == self.s.len() {
                return Err(());
            }
            self.p += 1;
            if self.p < self.s.len() && self.s[self.p] != b' ' && self.s[self.p] != b'#' {
                return Err(());
            }
        }
        Ok(Some(String::from_utf8(self.s[a..self.p].to_vec()).unwrap()))
    }
}

pub fn timestamp(s: &str) -> Option<i64> {
    let s = s.trim_matches('"');
    let (t, utc) = match s.strip_suffix('Z') { Some(t) => (t, true), None => (s, false) };
    let dt = match t.len() {
        8 => NaiveDate::parse_from_str(t, "%Y%m%d").ok()?.and_hms_opt(0, 0, 0)?,
        12 => NaiveDateTime::parse_from_str(t, "%Y%m%d%H%M").ok()?,
        14 => NaiveDateTime::parse_from_str(t, "%Y%m%d%H%M%S").ok()?,
        _ => return None,
    };
    if utc { Some(dt.and_utc().timestamp()) } else { Local.from_local_datetime(&dt).earliest().map(|x| x.timestamp()) }
}

pub fn line(s: &str) -> Option<Signer> {
    let mut t = Tok { s: s.as_bytes(), p: 0 };
    let p = t.next(true).ok()??;
    let principals: Vec<String> = p.trim_matches('"').split(',').map(|x| x.to_string()).collect();
    if principals.iter().any(|x| x.is_empty()) {
        return None;
    }
    let (mut ca, mut ns, mut after, mut before) = (false, None, None, None);
    let name = loop {
        let o = t.next(false).ok()??;
        let (k, v) = match o.find('=') { Some(i) => (&o[..i], &o[i + 1..]), None => (&o[..], "") };
        let v = v.trim_matches('"');
        if v.contains('"') {
            return None;
        }
        match k.to_lowercase().as_str() {
            "cert-authority" => ca = true,
            "namespaces" if ns.is_none() => ns = Some(v.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()),
            "valid-after" if after.is_none() => after = Some(timestamp(v)?),
            "valid-before" if before.is_none() => before = Some(timestamp(v)?),
            "namespaces" | "valid-after" | "valid-before" => return None,
            _ => break o,
        }
    };
    let d = t.next(false).ok()??;
    let (key, comment) = pk_text(&format!("{} {}", name, d))?;
    let _ = comment;
    if let (Some(a), Some(b)) = (after, before) {
        if b <= a {
            return None;
        }
    }
    if !t.skip() {
        return None;
    }
    Some(Signer { principals, ca, ns, after, before, key })
}

/// Err(i): line i fails
pub fn file(s: &str) -> Result<Vec<Signer>, usize> {
    let mut v = vec![];
    for (i, l) in s.lines().enumerate() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        v.push(line(l).ok_or(i)?);
    }
    Ok(v)
}

fn stamp(g: &mut Rng) -> String {
    let s = match g.below(10) {
        0 => "20210314023000".to_string(),
        1 => "202111070130".to_string(),
        2 => format!("{}", g.u64() % 100_000_000),
        3 => g.word(),
        4 => "20250229".into(),
        5 => format!("2020{:02}{:02}{:02}", 1 + g.below(13), 1 + g.below(31), g.below(30)),
        6 => "+2021010".into(),
        _ => {
            let d = format!("20{:02}{:02}{:02}", g.below(40), 1 + g.below(12), 1 + g.below(28));
            match g.below(3) { 0 => d, 1 => format!("{}{:02}{:02}", d, g.below(24), g.below(60)), _ => format!("{}{:02}{:02}{:02}", d, g.below(24), g.below(60), g.below(61)) }
        }
    };
    match g.below(8) { 0..=2 => s + "Z", 3 => s + "ZZ", _ => s }
}

pub fn gen(g: &mut Rng, keys: &[Key]) -> String {
    let mut l = String::new();
    let p: Vec<String> = (0..g.new_len(300).unwrap_or(1 + g.below(3))).map(|_| match g.below(8) { 0 if g.one_in(3) => String::new(), 1 => "a b".into(), 2 => "x#y".into(), _ => g.word() }).collect();
    let q = p.iter().any(|x| x.contains([' ', '#'])) && !g.one_in(5) || g.one_in(4);
    let p = p.join(",");
    l += &if q { format!("\"{}\"", p) } else { p };
    for _ in 0..*g.pick(&[0, 0, 1, 2, 3, 4]) {
        l += *g.pick(&[" ", " ", "  ", "   "]);
        let k = match g.below(9) { 0 | 1 => "cert-authority", 2 | 3 => "namespaces", 4 => "valid-after", 5 => "valid-before", 6 => "Valid-Before", 7 => "NAMESPACES", _ => "other" };
        if k == "other" && !g.one_in(4) {
            continue;
        }
        let v = match k.to_lowercase().as_str() {
            "cert-authority" if !g.one_in(6) => { l += k; continue; }
            "namespaces" => { let n = g.below(4); (0..n).map(|_| if g.one_in(5) { String::new() } else if g.one_in(5) { "a b#c".into() } else { g.word() }).collect::<Vec<_>>().join(",") }
            _ => stamp(g),
        };
        l += &if v.contains([' ', '#']) && !g.one_in(6) || g.one_in(3) { format!("{}=\"{}\"", k, v) } else { format!("{}={}", k, v) };
        if g.one_in(30) {
            l += *g.pick(&["\"x\"", ",", "x", "=", "\t"]);
        }
    }
    l += " ";
    let pk = any_pk(g, keys, true);
    let b = if g.one_in(20) { mutate(g, &pk_wire(&pk)) } else { pk_wire(&pk) };
    let n = if g.one_in(25) { g.pick(NAMES).name.to_string() } else { pk.name.clone() };
    let b64 = base64::encode(b);
    l += &match g.below(30) { 0 => format!("\"{}\" {}", n, b64), 1 => format!("{} \"{}\"", n, b64), 2 => format!("{}\t{} zz", n, b64), _ => format!("{} {}", n, b64) };
    match g.below(10) {
        0 => l += " # comment",
        1 => l += "#comment \"quoted\"",
        2 => l += " trailing",
        3 => l += " # it's \"",
        4 => l += "   ",
        _ => (),
    }
    if g.fresh_literals() && g.one_in(3) || g.one_in(6) {
        l = mutate_text(g, &l);
    }
    l
}
