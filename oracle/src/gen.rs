//! Keys with which the generators can really sign, and generators of wire data.
use crate::spec::*;
use crate::util::*;
use num_bigint::BigUint;
use ring::signature::{self as rs, KeyPair};

pub enum Secret {
    Ed(rs::Ed25519KeyPair, Vec<u8>),
    Ec(rs::EcdsaKeyPair, Vec<u8>),
    Rsa { n: BigUint, d: BigUint, p: BigUint, q: BigUint, iqmp: BigUint },
}

pub struct Key {
    pub pk: Pk,
    pub sec: Secret,
}

fn der_ints(b: &[u8]) -> Vec<BigUint> {
    let mut o = 4;
    let mut v = vec![];
    while o < b.len() {
        let (n, h) = match b[o + 1] {
            0x81 => (b[o + 2] as usize, 3),
            0x82 => (b[o + 2] as usize * 256 + b[o + 3] as usize, 4),
            n => (n as usize, 2),
        };
        v.push(BigUint::from_bytes_be(&b[o + h..o + h + n]));
        o += h + n;
    }
    v
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn pool() -> Vec<Key> {
    let mut v = vec![];
    let rng = ring::rand::SystemRandom::new();
    for i in 0..3u8 {
        let seed = sha256(&[i, 7]);
        let kp = rs::Ed25519KeyPair::from_seed_unchecked(&seed).unwrap();
        let key = kp.public_key().as_ref().to_vec();
        let (name, app) = if i == 2 { ("sk-ssh-ed25519@openssh.com", Some("ssh:é".to_string())) } else { ("ssh-ed25519", None) };
        v.push(Key { pk: Pk { name: name.into(), body: Body::Ed { key, app } }, sec: Secret::Ed(kp, seed) });
    }
    // fixed keys: a scalar with its top bit set, two with leading zero bytes, ordinary ones
    for (i, l) in include_str!("../data/ec.txt").lines().enumerate() {
        let (scalar, key) = l.split_once(' ').unwrap();
        let (scalar, key) = (unhex(scalar), unhex(key));
        let alg = if scalar.len() == 48 { &rs::ECDSA_P384_SHA384_FIXED_SIGNING } else { &rs::ECDSA_P256_SHA256_FIXED_SIGNING };
        let kp = rs::EcdsaKeyPair::from_private_key_and_public_key(alg, &scalar, &key, &rng).unwrap();
        let (name, curve, app) = match i {
            2 => ("sk-ecdsa-sha2-nistp256@openssh.com", "nistp256", Some("ssh:".to_string())),
            3 | 4 => ("ecdsa-sha2-nistp384", "nistp384", None),
            _ => ("ecdsa-sha2-nistp256", "nistp256", None),
        };
        v.push(Key { pk: Pk { name: name.into(), body: Body::Ec { curve: curve.into(), key, app } }, sec: Secret::Ec(kp, scalar) });
    }
    for (i, d) in [&include_bytes!("../data/rsa1.der")[..], &include_bytes!("../data/rsa2.der")[..]].iter().enumerate() {
        let x = der_ints(d);
        let name = if i == 0 { "ssh-rsa" } else { "rsa-sha2-512" };
        v.push(Key {
            pk: Pk { name: name.into(), body: Body::Rsa { e: x[2].to_bytes_be(), n: x[1].to_bytes_be() } },
            sec: Secret::Rsa { n: x[1].clone(), d: x[3].clone(), p: x[4].clone(), q: x[5].clone(), iqmp: x[8].clone() },
        });
    }
    v
}

fn rsa_sign(n: &BigUint, d: &BigUint, hash: &str, msg: &[u8]) -> Vec<u8> {
    let (alg, pre): (&ring::digest::Algorithm, &[u8]) = match hash {
        "sha1" => (&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, &[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14]),
        "sha256" => (&ring::digest::SHA256, &[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20]),
        _ => (&ring::digest::SHA512, &[0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40]),
    };
    let k = n.to_bytes_be().len();
    let t = [pre, ring::digest::digest(alg, msg).as_ref()].concat();
    let em = [vec![0, 1], vec![0xff; k - 3 - t.len()], vec![0], t].concat();
    let s = BigUint::from_bytes_be(&em).modpow(d, n).to_bytes_be();
    [vec![0; k - s.len()], s].concat()
}

/// signatures that chance would hardly find (both numbers short, one of them very short): key, message, r and s
pub fn rare_of(i: usize) -> Vec<(String, Vec<u8>)> {
    include_str!("../data/rare.txt")
        .lines()
        .map(|l| l.split(' ').collect::<Vec<_>>())
        .filter(|f| f[0] == i.to_string())
        .map(|f| (f[1].to_string(), unhex(f[2])))
        .collect()
}

pub fn rare_message(k: &Key, text: &str) -> Vec<u8> {
    let d = signed_data("file", "sha512", text.as_bytes());
    match &k.pk.body {
        Body::Ec { app: Some(a), .. } => sk_message(a, 1, 7, &d),
        _ => d,
    }
}

/// prints data/rare.txt
pub fn search_rare() {
    for (i, k) in pool().iter().enumerate() {
        match &k.sec {
            Secret::Ed(..) => (),
            Secret::Rsa { .. } => {
                for n in 0.. {
                    let t = format!("rare{}", n);
                    let s = k.raw(&rare_message(k, &t), "sha512");
                    if s[0] == 0 {
                        println!("{} {} {}", i, t, hex(&s));
                        break;
                    }
                }
            }
            Secret::Ec(..) => {
                let m = rare_message(k, "rare");
                let mut want = [true; 3];
                while want.iter().any(|x| *x) {
                    let s = k.raw(&m, "");
                    let h = s.len() / 2;
                    for (j, ok) in [s[0] == 0 && s[h] == 0, s[0] == 0 && s[1] == 0, s[h] == 0 && s[h + 1] == 0].iter().enumerate() {
                        if *ok && want[j] {
                            want[j] = false;
                            println!("{} rare {}", i, hex(&s));
                        }
                    }
                }
            }
        }
    }
}

impl Key {
    /// the blob of a rare signature over rare_message
    pub fn rare_blob(&self, sig: &[u8]) -> Vec<u8> {
        match &self.pk.body {
            Body::Ec { app, .. } => {
                let (a, b) = sig.split_at(sig.len() / 2);
                let o = [es(&self.pk.name), eb(&[emp(a), emp(b)].concat())].concat();
                if app.is_some() { [o, vec![1], e32(7)].concat() } else { o }
            }
            _ => [es("rsa-sha2-512"), eb(sig)].concat(),
        }
    }
    /// raw primitive signature
    pub fn raw(&self, msg: &[u8], hash: &str) -> Vec<u8> {
        match &self.sec {
            Secret::Ed(k, _) => k.sign(msg).as_ref().to_vec(),
            Secret::Ec(k, _) => k.sign(&ring::rand::SystemRandom::new(), msg).unwrap().as_ref().to_vec(),
            Secret::Rsa { n, d, .. } => rsa_sign(n, d, hash, msg),
        }
    }
    /// well-formed signature blob; how: which algorithm name for RSA
    pub fn sign(&self, g: &mut Rng, msg: &[u8]) -> Vec<u8> {
        let (flags, ctr) = (g.byte(), match g.below(4) { 0 => 0, 1 => g.num64() as u32, _ => g.u64() as u32 });
        match &self.pk.body {
            Body::Ed { app, .. } => match app {
                None => [es(&self.pk.name), eb(&self.raw(msg, ""))].concat(),
                Some(a) => [es(&self.pk.name), eb(&self.raw(&sk_message(a, flags, ctr, msg), "")), vec![flags], e32(ctr)].concat(),
            },
            Body::Ec { app, .. } => {
                let m = match app { None => msg.to_vec(), Some(a) => sk_message(a, flags, ctr, msg) };
                let mut s = self.raw(&m, "");
                if g.one_in(4) {
                    // look for a signature with a short r or s
                    for _ in 0..150 {
                        let h = s.len() / 2;
                        if s[0] == 0 || s[h] == 0 || s[0] < 0x40 && s[h] < 0x40 {
                            break;
                        }
                        s = self.raw(&m, "");
                    }
                }
                let (a, b) = s.split_at(s.len() / 2);
                let mut o = [es(&self.pk.name), eb(&[emp(a), emp(b)].concat())].concat();
                if app.is_some() {
                    o.push(flags);
                    o.extend(e32(ctr));
                }
                o
            }
            Body::Rsa { .. } => {
                let (n, h) = *g.pick(&[("ssh-rsa", "sha1"), ("rsa-sha2-256", "sha256"), ("rsa-sha2-512", "sha512")]);
                [es(n), eb(&self.raw(msg, h))].concat()
            }
        }
    }
    /// a signature blob that may be wrong in one way
    pub fn sign_any(&self, g: &mut Rng, msg: &[u8]) -> Vec<u8> {
        let s = self.sign(g, msg);
        if g.one_in(2) {
            return s;
        }
        let mut r = Rd::new(&s);
        let name = r.string().unwrap();
        let inner = r.bytes().unwrap();
        let tail = s[r.o..].to_vec();
        match g.below(15) {
            // without its last few bytes
            14 => s[..s.len().saturating_sub(1 + g.below(6))].to_vec(),
            13 => {
                // r and s of any two lengths
                let (a, b) = (*g.pick(&[0usize, 1, 8, 31, 32, 33, 40, 47, 48, 49, 64, 66, 90]), *g.pick(&[0usize, 1, 8, 31, 32, 33, 40, 47, 48, 49, 64, 66, 90]));
                [es(&name), eb(&[emp(&g.bytes(a)), emp(&g.bytes(b))].concat()), tail].concat()
            }
            0 => [es(g.pick(NAMES).name), eb(&inner), tail].concat(),
            1 => { let mut m = msg.to_vec(); if m.is_empty() { m.push(1) } else { let i = g.below(m.len()); m[i] ^= 1 << g.below(8); } self.sign(g, &m) }
            2 => { let mut s = s; let i = g.below(s.len()); s[i] ^= 1 << g.below(8); s }
            3 => s[..g.below(s.len())].to_vec(),
            4 => [s, g.blob()].concat(),
            5 => [es(&name), eb(&[inner, g.blob()].concat()), tail].concat(),
            6 => [es(&name), eb(&inner[..g.below(inner.len() + 1)]), tail].concat(),
            7 => [es(&name), eb(&inner), g.blob()].concat(),
            8 => {
                // r and s not minimally encoded
                let mut i = Rd::new(&inner);
                match (i.bytes(), i.bytes()) {
                    (Ok(a), Ok(b)) => { let z = vec![0; g.below(3)]; [es(&name), eb(&[eb(&[z.clone(), a].concat()), eb(&[z, b].concat())].concat()), tail].concat() }
                    _ => [es(&name), eb(&[vec![0], inner].concat()), tail].concat(),
                }
            }
            9 => {
                let mut i = Rd::new(&inner);
                match (i.bytes(), i.bytes()) {
                    (Ok(a), Ok(_)) => [es(&name), eb(&[eb(&a), eb(&g.blob())].concat()), tail].concat(),
                    _ => [es(&name), eb(&[]), tail].concat(),
                }
            }
            10 => match (&self.pk.body, &self.sec) {
                // RSA: the named hash is not the one used
                (Body::Rsa { .. }, _) => { let h = *g.pick(&["sha1", "sha256", "sha512"]); [es(g.pick(&["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512"])), eb(&self.raw(msg, h))].concat() }
                // hardware key: signed the plain message, or with the tail left out
                (Body::Ed { app: Some(_), .. }, _) => { let s = self.raw(msg, ""); [es(&self.pk.name), eb(&s), tail].concat() }
                _ => [es(&name), eb(&inner), vec![1, 0, 0, 0, 1]].concat(),
            },
            11 => g.blob(),
            _ => [es(&name), eb(&inner), { let mut t = tail; if !t.is_empty() { let i = g.below(t.len()); t[i] ^= 1 } t }].concat(),
        }
    }
    pub fn private(&self, g: &mut Rng) -> Option<Priv> {
        let sec = match &self.sec {
            Secret::Ed(_, seed) => match &self.pk.body {
                Body::Ed { app: Some(_), .. } => Sec::Sk { flags: g.byte(), handle: g.blob(), reserved: if g.one_in(2) { vec![] } else { g.blob() } },
                Body::Ed { key, .. } => Sec::Plain([&seed[..], &key[..]].concat()),
                _ => return None,
            },
            Secret::Ec(_, s) => match &self.pk.body {
                Body::Ec { app: Some(_), .. } => Sec::Sk { flags: g.byte(), handle: g.blob(), reserved: if g.one_in(2) { vec![] } else { g.blob() } },
                _ => { let mut s: Vec<u8> = s.iter().cloned().skip_while(|x| *x == 0).collect(); if s[0] >= 0x80 { s.insert(0, 0) } Sec::Plain(s) }
            },
            Secret::Rsa { d, p, q, iqmp, .. } => Sec::Rsa { d: d.to_bytes_be(), iqmp: iqmp.to_bytes_be(), p: p.to_bytes_be(), q: q.to_bytes_be() },
        };
        Some(Priv { pk: self.pk.clone(), sec, comment: g.text(), check: g.num64() as u32 })
    }
}

/// a public key of any kind, components arbitrary
pub fn any_pk(g: &mut Rng, keys: &[Key], cert_names: bool) -> Pk {
    if g.one_in(2) {
        return g.pick(keys).pk.clone();
    }
    loop {
        let k = g.pick(NAMES);
        if k.cert && !cert_names {
            continue;
        }
        let app = if k.sk { Some(g.text()) } else { None };
        let trim = |v: Vec<u8>| v.into_iter().skip_while(|x| *x == 0).collect::<Vec<u8>>();
        let body = match k.fam {
            Fam::Rsa => Body::Rsa { e: trim(g.blob()), n: trim(g.blob()) },
            Fam::Ec => Body::Ec { curve: g.pick(CURVES).to_string(), key: g.blob(), app },
            Fam::Ed => Body::Ed { key: g.blob(), app },
        };
        return Pk { name: k.name.into(), body };
    }
}

/// flip, cut, insert or overwrite
pub fn mutate(g: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + g.below(2) {
        let n = v.len();
        match g.below(6) {
            0 if n > 0 => { let i = g.below(n); v[i] ^= 1 << g.below(8); }
            1 if n > 0 => { let i = g.below(n); v.truncate(i); }
            2 => { let i = g.below(n + 1); let x = g.byte(); v.insert(i, x); }
            3 if n > 0 => { let i = g.below(n); v.remove(i); }
            4 if n > 4 => { let i = g.below(n - 3); let x = *g.pick(&[0u32, 1, 3, 4, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffb]); v[i..i + 4].copy_from_slice(&e32(x)); }
            _ if n > 0 => { let i = g.below(n); v[i] = g.byte(); }
            _ => (),
        }
    }
    v
}

pub fn mutate_text(g: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + g.below(2) {
        let n = v.len();
        if g.fresh_literals() && g.one_in(2) || g.one_in(12) {
            // a piece of the source, at a line break or anywhere
            let l: Vec<char> = g.literal().chars().collect();
            let br: Vec<usize> = (0..n).filter(|i| v[*i] == '\n').map(|i| i + 1).collect();
            let i = if br.is_empty() || g.one_in(3) { g.below(n + 1) } else { *g.pick(&br) };
            let l = match g.below(4) { 0 => [l, g.word().chars().collect(), vec!['\n']].concat(), 1 => [l, vec!['\n']].concat(), _ => l };
            v.splice(i..i, l);
            continue;
        }
        if g.one_in(10) {
            // a blank at an end of a line
            let br: Vec<usize> = (0..n).filter(|i| v[*i] == '\n').collect();
            if !br.is_empty() {
                let (i, x) = (*g.pick(&br), *g.pick(&[' ', '\t', '\r', '\u{a0}']));
                v.insert(i + g.below(2), x);
                continue;
            }
        }
        let c = *g.pick(&['\n', ' ', '=', 'A', '-', '\r', '"', '#', ',', '0', 'Z', '\t', 'é', '9']);
        match g.below(4) {
            0 if n > 0 => { let i = g.below(n); v[i] = c; }
            1 => { let i = g.below(n + 1); v.insert(i, c); }
            2 if n > 0 => { let i = g.below(n); v.remove(i); }
            _ if n > 0 => { let i = g.below(n); v.truncate(i); }
            _ => (),
        }
    }
    v.into_iter().collect()
}

pub fn options(g: &mut Rng) -> std::collections::BTreeMap<String, String> {
    let n = if g.one_in(2) { g.count(4, 300) } else { *g.pick(&[0, 0, 1, 2, 3, 6]) };
    (0..n).map(|_| { let k = match g.below(4) { 0 => "force-command".into(), 1 => String::new(), _ => g.text() }; (k, g.text()) }).collect()
}

/// an options or principals field: possibly malformed
fn field(g: &mut Rng, good: Vec<u8>) -> Vec<u8> {
    match g.below(24) {
        0 => eb(&g.blob()),
        1 => { let mut r = Rd::new(&good); let b = r.bytes().unwrap(); eb(&mutate(g, &b)) }
        2 => { let b = good[4..].to_vec(); eb(&[b, es("a"), e32(9)].concat()) }
        3 => { let b = good[4..].to_vec(); eb(&[b, es("a"), eb(&[1, 2])].concat()) }
        4 => { let b = good[4..].to_vec(); eb(&[b, eb(&[0xff, 0xfe]), eb(&[])].concat()) }
        5 => { let b = good[4..].to_vec(); eb(&[es(""), es(""), b].concat()) }
        6 => { let b = good[4..].to_vec(); eb(&[b, es("name"), eb(&[es("v"), vec![9]].concat())].concat()) }
        _ => good,
    }
}

/// certificate blob: signed correctly most of the time, fields sometimes malformed
pub fn cert_blob(g: &mut Rng, keys: &[Key]) -> Vec<u8> {
    let ca = g.pick(keys);
    let subj = any_pk(g, keys, false);
    let k = kt(&subj.name).unwrap();
    let names: Vec<&Kt> = NAMES.iter().filter(|x| x.cert && x.plain == k.plain).collect();
    let name = if g.one_in(15) { g.pick(NAMES).name.to_string() } else if g.one_in(40) { g.text() } else { names[0].name.to_string() };
    let np = if g.one_in(2) { g.count(4, 3000) } else { *g.pick(&[0, 1, 2, 5]) };
    let pr: Vec<String> = (0..np).map(|_| g.text()).collect();
    let role = if g.one_in(12) { *g.pick(&[0, 3, 0x01000000, 0xffffffff, 257]) } else { 1 + g.below(2) as u32 };
    let (o1, o2) = (options(g), options(g));
    let kid = if g.one_in(20) { g.blob() } else { g.text().into_bytes() };
    let capk = if g.one_in(12) { any_pk(g, keys, true) } else { ca.pk.clone() };
    let ca_blob = if g.one_in(12) { mutate(g, &pk_wire(&capk)) } else if g.one_in(8) { [pk_wire(&capk), g.blob()].concat() } else { pk_wire(&capk) };
    let mut b = [es(&name), eb(&g.blob()), pk_data(&subj), e64(g.num64()), e32(role), eb(&kid)].concat();
    b.extend(field(g, elist(&pr)));
    b.extend(e64(g.num64()));
    b.extend(e64(g.num64()));
    b.extend(field(g, emap(&o1)));
    b.extend(field(g, emap(&o2)));
    b.extend(if g.one_in(4) { eb(&g.blob()) } else { eb(&[]) });
    b.extend(eb(&ca_blob));
    if g.one_in(14) {
        b = mutate(g, &b);
    }
    let s = if g.one_in(3) { ca.sign_any(g, &b) } else { ca.sign(g, &b) };
    let mut o = [b, eb(&s)].concat();
    if g.one_in(10) {
        o.extend(g.blob());
    }
    if g.one_in(8) {
        o = mutate(g, &o);
    }
    o
}
