//! Literals of the source tree, as building blocks for inputs.  Those which occur more
//! often than data/literals.txt says come up far more often.  They only steer generation:
//! what a case expects never depends on them.
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub new_text: Vec<String>,
    pub all_text: Vec<String>,
    pub new_num: Vec<u64>,
}

fn scan(s: &str, texts: &mut BTreeMap<String, usize>, nums: &mut BTreeMap<u64, usize>) {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let at = |i: usize| b.get(i).copied().unwrap_or('\0');
    while i < b.len() {
        let c = b[i];
        if c == '/' && at(i + 1) == '/' {
            while i < b.len() && b[i] != '\n' { i += 1 }
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') { i += 1 }
            i += 2;
        } else if c == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) {
            let mut h = 0;
            i += 1;
            while at(i) == '#' { h += 1; i += 1 }
            i += 1;
            let st = i;
            while i < b.len() && !(b[i] == '"' && (0..h).all(|k| at(i + 1 + k) == '#')) { i += 1 }
            *texts.entry(b[st.min(b.len())..i.min(b.len())].iter().collect()).or_default() += 1;
            i += 1 + h;
        } else if c == '"' || (c == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'')) {
            i += 1;
            let mut t = String::new();
            while i < b.len() && b[i] != c {
                if b[i] == '\\' {
                    i += 1;
                    match at(i) {
                        'n' => t.push('\n'),
                        'r' => t.push('\r'),
                        't' => t.push('\t'),
                        '0' => t.push('\0'),
                        'x' => { if let Ok(v) = u8::from_str_radix(&b[(i + 1).min(b.len())..(i + 3).min(b.len())].iter().collect::<String>(), 16) { t.push(v as char) } i += 2 }
                        'u' => {
                            let e = (i..b.len()).find(|k| b[*k] == '}').unwrap_or(i);
                            if let Some(ch) = u32::from_str_radix(&b[(i + 2).min(e)..e].iter().filter(|x| **x != '_').collect::<String>(), 16).ok().and_then(char::from_u32) { t.push(ch) }
                            i = e;
                        }
                        '\n' => while at(i + 1).is_whitespace() && i + 1 < b.len() { i += 1 },
                        x => t.push(x),
                    }
                } else {
                    t.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            *texts.entry(t).or_default() += 1;
        } else if c.is_ascii_digit() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') { i += 1 }
            let t: String = b[st..i].iter().filter(|x| **x != '_').collect();
            let (t, radix) = if let Some(x) = t.strip_prefix("0x") { (x.to_string(), 16) } else if let Some(x) = t.strip_prefix("0b") { (x.to_string(), 2) } else if let Some(x) = t.strip_prefix("0o") { (x.to_string(), 8) } else { (t, 10) };
            let d: String = t.split(|x| matches!(x, 'u' | 'i')).next().unwrap_or("").into();
            if let Ok(v) = u64::from_str_radix(&d, radix) { *nums.entry(v).or_default() += 1 }
        } else if c.is_alphabetic() || c == '_' {
            // an identifier, or the prefix of a literal
            if (c == 'b' || c == 'c') && matches!(at(i + 1), '"' | '\'' | 'r') && !(at(i + 1) == 'r' && !matches!(at(i + 2), '"' | '#')) {
                i += 1;
                continue;
            }
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1 }
        } else {
            i += 1;
        }
    }
}

fn walk(p: &std::path::Path, texts: &mut BTreeMap<String, usize>, nums: &mut BTreeMap<u64, usize>) {
    let Ok(d) = std::fs::read_dir(p) else { return };
    let mut v: Vec<_> = d.flatten().map(|e| e.path()).collect();
    v.sort();
    for e in v {
        if e.is_dir() {
            walk(&e, texts, nums);
        } else if e.extension().map_or(false, |x| x == "rs") {
            if let Ok(s) = std::fs::read_to_string(&e) { scan(&s, texts, nums) }
        }
    }
}

pub fn literals() -> (BTreeMap<String, usize>, BTreeMap<u64, usize>) {
    let (mut t, mut n) = Default::default();
    let p = std::env::var("ORACLE_SRC").unwrap_or("/repo/src".into());
    walk(std::path::Path::new(&p), &mut t, &mut n);
    (t.into_iter().filter(|x| !x.0.is_empty() && x.0.len() <= 80).collect(), n)
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (t, n) = literals();
        let mut base: BTreeMap<&str, usize> = BTreeMap::new();
        for l in include_str!("../data/literals.txt").lines() {
            if let Some((k, x)) = l.split_once(' ') { base.insert(x, k.parse().unwrap_or(0)); }
        }
        // mentioned more often than in the list
        let new = |s: &str, k: usize| base.get(s).map_or(true, |b| k > *b);
        Dict {
            new_text: t.iter().filter(|x| new(&format!("{:?}", x.0), *x.1)).map(|x| x.0.clone()).collect(),
            all_text: t.keys().filter(|x| x.len() <= 40).cloned().collect(),
            new_num: n.iter().filter(|x| new(&x.0.to_string(), *x.1)).map(|x| *x.0).collect(),
        }
    })
}
