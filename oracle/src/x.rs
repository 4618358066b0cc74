//! DER, X.509 and CBOR builders with known contents.
use crate::gen::*;
use crate::spec::*;
use crate::util::*;

pub fn tlv(t: u8, b: &[u8]) -> Vec<u8> {
    let n = b.len();
    let mut o = vec![t];
    if n < 128 {
        o.push(n as u8);
    } else if n < 256 {
        o.extend([0x81, n as u8]);
    } else {
        o.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    o.extend_from_slice(b);
    o
}
pub fn seq(p: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &p.concat())
}
pub fn oid(s: &str) -> Vec<u8> {
    let v: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
    let mut o = vec![(v[0] * 40 + v[1]) as u8];
    for x in &v[2..] {
        let mut t = vec![(x & 127) as u8];
        let mut x = x >> 7;
        while x > 0 {
            t.insert(0, 128 | (x & 127) as u8);
            x >>= 7;
        }
        o.extend(t);
    }
    tlv(6, &o)
}
pub fn uint(b: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    if v.is_empty() || v[0] >= 128 {
        v.insert(0, 0);
    }
    tlv(2, &v)
}
pub fn ecdsa_der(fixed: &[u8]) -> Vec<u8> {
    let (a, b) = fixed.split_at(fixed.len() / 2);
    seq(&[uint(a), uint(b)])
}
pub fn bits(b: &[u8]) -> Vec<u8> {
    tlv(3, &[&[0], b].concat())
}
pub const P256: &str = "1.2.840.10045.3.1.7";
pub const P384: &str = "1.3.132.0.34";
pub const ECPK: &str = "1.2.840.10045.2.1";

pub fn spki(k: &Pk) -> Vec<u8> {
    match &k.body {
        Body::Rsa { e, n } => seq(&[seq(&[oid("1.2.840.113549.1.1.1"), vec![5, 0]]), bits(&seq(&[uint(n), uint(e)]))]),
        Body::Ec { curve, key, .. } => seq(&[seq(&[oid(ECPK), oid(if curve == "nistp256" { P256 } else { P384 })]), bits(key)]),
        Body::Ed { key, .. } => seq(&[seq(&[oid("1.3.101.112")]), bits(key)]),
    }
}
pub fn sigalg(k: &Key) -> Vec<u8> {
    match &k.pk.body {
        Body::Rsa { .. } => seq(&[oid("1.2.840.113549.1.1.11"), vec![5, 0]]),
        Body::Ec { curve, .. } => seq(&[oid(if curve == "nistp256" { "1.2.840.10045.4.3.2" } else { "1.2.840.10045.4.3.3" })]),
        Body::Ed { .. } => seq(&[oid("1.3.101.112")]),
    }
}
pub fn x_sign(k: &Key, m: &[u8]) -> Vec<u8> {
    match &k.pk.body {
        Body::Ec { .. } => ecdsa_der(&k.raw(m, "")),
        _ => k.raw(m, "sha256"),
    }
}
fn name(s: &str) -> Vec<u8> {
    seq(&[tlv(0x31, &seq(&[oid("2.5.4.3"), tlv(12, s.as_bytes())]))])
}
pub fn x509(g: &mut Rng, issuer: &Key, spki: &[u8], exts: &[(String, Vec<u8>)]) -> Vec<u8> {
    // names, validity and criticality are not part of what the specification looks at
    let e: Vec<Vec<u8>> = exts.iter().map(|(o, v)| if g.one_in(8) { seq(&[oid(o), vec![1, 1, 0xff], tlv(4, v)]) } else { seq(&[oid(o), tlv(4, v)]) }).collect();
    let (iss, sub) = *g.pick(&[("ca", "subject"), ("ca", "subject"), ("ca", "ca"), ("", ""), ("subject", "ca")]);
    let (from, to) = *g.pick(&[("200101000000Z", "400101000000Z"), ("200101000000Z", "400101000000Z"), ("050101000000Z", "060101000000Z"), ("450101000000Z", "460101000000Z")]);
    let mut p = vec![
        tlv(0xa0, &[2, 1, 2]), uint(&g.bytes(8)), sigalg(issuer), name(iss),
        seq(&[tlv(0x17, from.as_bytes()), tlv(0x17, to.as_bytes())]), name(sub), spki.to_vec(),
    ];
    if !e.is_empty() {
        p.push(tlv(0xa3, &seq(&e)));
    }
    let tbs = seq(&p);
    seq(&[tbs.clone(), sigalg(issuer), bits(&x_sign(issuer, &tbs))])
}
pub fn csr(k: &Key, spki: &[u8]) -> Vec<u8> {
    let info = seq(&[vec![2, 1, 0], name("subject"), spki.to_vec(), tlv(0xa0, &[])]);
    seq(&[info.clone(), sigalg(k), bits(&x_sign(k, &info))])
}
pub fn pem(d: &[u8]) -> String {
    wrap("CERTIFICATE", d, 64)
}

// ---------------------------------------------------------------- CBOR

pub fn head(major: u8, v: u64, wide: usize) -> Vec<u8> {
    let m = major << 5;
    let n = if v < 24 { 0 } else if v < 256 { 1 } else if v < 65536 { 2 } else if v < 1 << 32 { 3 } else { 4 };
    match n.max(wide) {
        0 => vec![m | v as u8],
        1 => vec![m | 24, v as u8],
        2 => [vec![m | 25], (v as u16).to_be_bytes().to_vec()].concat(),
        3 => [vec![m | 26], (v as u32).to_be_bytes().to_vec()].concat(),
        _ => [vec![m | 27], v.to_be_bytes().to_vec()].concat(),
    }
}
pub fn cint(v: i128, wide: usize) -> Vec<u8> {
    if v >= 0 { head(0, v as u64, wide) } else { head(1, (-1 - v) as u64, wide) }
}
pub fn cbytes(b: &[u8], wide: usize) -> Vec<u8> {
    [head(2, b.len() as u64, wide), b.to_vec()].concat()
}

#[derive(Debug, PartialEq, Clone)]
pub struct Auth {
    pub rpid: Vec<u8>,
    pub flags: u8,
    pub count: u32,
    pub aaguid: Vec<u8>,
    pub cred: Vec<u8>,
    pub kty: i128,
    pub alg: i128,
    pub key: Vec<u8>,
    pub params: Vec<String>,
}

fn cb_head(b: &[u8], o: &mut usize, major: u8) -> Option<u64> {
    let i = *b.get(*o)?;
    if i >> 5 != major {
        return None;
    }
    *o += 1;
    let n = match i & 31 { x @ 0..=23 => return Some(x as u64), 24 => 1, 25 => 2, 26 => 4, 27 => 8, _ => return None };
    let mut v = 0u64;
    for _ in 0..n {
        v = v << 8 | *b.get(*o)? as u64;
        *o += 1;
    }
    Some(v)
}
fn cb_int(b: &[u8], o: &mut usize) -> Option<i128> {
    if *b.get(*o)? >> 5 == 0 {
        return cb_head(b, o, 0).map(|x| x as i128);
    }
    let v = cb_head(b, o, 1)?;
    if v > i64::MAX as u64 { None } else { Some(-1 - v as i128) }
}

pub fn auth_data(b: &[u8]) -> Option<Auth> {
    let rpid = b.get(..32)?.to_vec();
    let flags = *b.get(32)?;
    let c = b.get(33..37)?;
    let count = u32::from_be_bytes([c[0], c[1], c[2], c[3]]);
    let aaguid = b.get(37..53)?.to_vec();
    let l = b.get(53..55)?;
    let l = l[0] as usize * 256 + l[1] as usize;
    let cred = b.get(55..55 + l)?.to_vec();
    if flags & 0x40 == 0 {
        return None;
    }
    let d = &b[55 + l..];
    let mut o = 0;
    let n = cb_head(d, &mut o, 5)?;
    if n > 256 {
        return None;
    }
    let (mut kty, mut alg, mut x, mut y, mut params) = (0, 0, vec![], None, None);
    for _ in 0..n {
        match cb_int(d, &mut o)? {
            -1 => params = Some(cb_int(d, &mut o)?.to_string()),
            1 => kty = cb_int(d, &mut o)?,
            3 => alg = cb_int(d, &mut o)?,
            k @ (-2 | -3) => {
                let n = cb_head(d, &mut o, 2)?;
                let v = d.get(o..o.checked_add(usize::try_from(n).ok()?)?)?.to_vec();
                o += n as usize;
                if k == -2 { x = v } else { y = Some(v) }
            }
            _ => {
                if *d.get(o)? != 0xf7 {
                    return None;
                }
                o += 1;
            }
        }
    }
    let key = match y { Some(y) => [vec![4], x, y].concat(), None => x };
    Some(Auth { rpid, flags, count, aaguid, cred, kty, alg, key, params: params.into_iter().collect() })
}

pub fn gen_auth(g: &mut Rng) -> Vec<u8> {
    let cred = if g.one_in(10) { vec![7; 256 + g.below(300)] } else { g.blob() };
    let mut flags = g.byte();
    if !g.one_in(6) {
        flags |= 0x40;
    }
    let mut b = [g.bytes(32), vec![flags], g.bytes(4), g.bytes(16), vec![(cred.len() >> 8) as u8, cred.len() as u8], cred].concat();
    let w = |g: &mut Rng| if g.one_in(5) { g.below(5) } else { 0 };
    let mut items: Vec<(i128, Vec<u8>)> = vec![];
    let alg = *g.pick(&[-7i128, -8, -7, -8, -257, 7, 0, i64::MIN as i128, u64::MAX as i128]);
    let ec = alg == -7 || g.one_in(5);
    items.push((1, { let x = w(g); cint(if ec { 2 } else { 1 }, x) }));
    items.push((3, { let x = w(g); cint(alg, x) }));
    items.push((-1, { let x = w(g); let v = *g.pick(&[1i128, 6, -1, 300, -129, -70000, i64::MIN as i128, u64::MAX as i128, -1 - i64::MAX as i128]); cint(v, x) }));
    let n = if g.one_in(6) { g.below(40) } else { 32 };
    items.push((-2, { let x = w(g); let v = g.bytes(n); cbytes(&v, x) }));
    if ec {
        items.push((-3, { let x = w(g); let v = g.bytes(n); cbytes(&v, x) }));
    }
    match g.below(8) {
        0 => items.push((*g.pick(&[2i128, 4, 5, -4, -70000]), vec![0xf7])),
        1 => items.push((4, cint(5, 0))),
        2 => { let i = g.below(items.len()); items.remove(i); }
        3 => { let i = g.below(items.len()); let v = items[i].clone(); items.push(v); }
        4 => { let i = g.below(items.len()); let v = g.pick(&[vec![0xf7], vec![0x61, 65], vec![0x5f, 0x41, 1, 0xff], vec![0x3b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], vec![0xf4], vec![0x1c]]).clone(); items[i].1 = v; }
        _ => (),
    }
    for i in (1..items.len()).rev() {
        let j = g.below(i + 1);
        items.swap(i, j);
    }
    if g.one_in(12) {
        // a long map
        for _ in 0..*g.pick(&[20usize, 30, 251, 252, 253]) {
            items.push((100, vec![0xf7]));
        }
    }
    let n = if g.one_in(15) { *g.pick(&[0u64, 1, 5, 256, 257, u64::MAX, 1 << 63, 1 << 32]) } else { items.len() as u64 };
    let x = w(g);
    b.extend(if g.one_in(30) { vec![0xbf] } else { head(5, n, x) });
    for (k, v) in items {
        let x = w(g);
        b.extend(cint(k, x));
        b.extend(v);
    }
    if g.one_in(5) {
        b.extend(g.blob());
    }
    if g.one_in(6) {
        b = mutate(g, &b);
    }
    b
}
