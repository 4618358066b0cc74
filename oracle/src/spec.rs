//! Executable statement of the formats, written from the RFCs and OpenSSH's PROTOCOL files,
//! sharing no code with the library.
use ring::{digest, signature as rs};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E {
    Eof,
    Bad,
}
pub type R<T> = Result<T, E>;

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub o: usize,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, o: 0 }
    }
    fn left(&self) -> usize {
        self.b.len().saturating_sub(self.o)
    }
    fn need(&self, n: usize) -> R<()> {
        if self.left() == 0 {
            Err(E::Eof)
        } else if self.left() < n {
            Err(E::Bad)
        } else {
            Ok(())
        }
    }
    fn be(&mut self, n: usize) -> R<u64> {
        self.need(n)?;
        let mut v = 0u64;
        for i in 0..n {
            v = v * 256 + self.b[self.o + i] as u64;
        }
        self.o += n;
        Ok(v)
    }
    pub fn u32(&mut self) -> R<u32> {
        self.be(4).map(|x| x as u32)
    }
    pub fn u64(&mut self) -> R<u64> {
        self.be(8)
    }
    pub fn bytes(&mut self) -> R<Vec<u8>> {
        let save = self.o;
        let n = self.be(4)? as usize;
        if self.left() < n {
            self.o = save;
            return Err(E::Bad);
        }
        let v = self.b[self.o..self.o + n].to_vec();
        self.o += n;
        Ok(v)
    }
    pub fn raw(&mut self, n: usize) -> R<Vec<u8>> {
        if self.left() == 0 || self.left() < n {
            return Err(E::Eof);
        }
        let v = self.b[self.o..self.o + n].to_vec();
        self.o += n;
        Ok(v)
    }
    pub fn string(&mut self) -> R<String> {
        let save = self.o;
        match String::from_utf8(self.bytes()?) {
            Ok(s) => Ok(s),
            Err(_) => {
                self.o = save;
                Err(E::Bad)
            }
        }
    }
    pub fn mpint(&mut self) -> R<Vec<u8>> {
        let save = self.o;
        let v = self.bytes()?;
        let ok = v.is_empty() || v[0] < 0x80 && (v[0] != 0 || v.len() > 1 && v[1] >= 0x80);
        if !ok {
            self.o = save;
            return Err(E::Bad);
        }
        Ok(if !v.is_empty() && v[0] == 0 { v[1..].to_vec() } else { v })
    }
    pub fn cstring(&mut self) -> R<String> {
        if self.left() == 0 {
            return Err(E::Eof);
        }
        match self.b[self.o..].iter().position(|x| *x == 0) {
            None => Err(E::Eof),
            Some(n) => {
                let s = self.b[self.o..self.o + n].iter().map(|x| *x as char).collect();
                self.o += n + 1;
                Ok(s)
            }
        }
    }
}

// ---------------------------------------------------------------- encoding

pub fn e32(v: u32) -> Vec<u8> {
    vec![(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]
}
pub fn e64(v: u64) -> Vec<u8> {
    (0..8).map(|i| (v >> (56 - 8 * i)) as u8).collect()
}
pub fn eb(b: &[u8]) -> Vec<u8> {
    let mut o = e32(b.len() as u32);
    o.extend_from_slice(b);
    o
}
pub fn es(s: &str) -> Vec<u8> {
    eb(s.as_bytes())
}
pub fn emp(b: &[u8]) -> Vec<u8> {
    let b: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    let mut v = vec![];
    if b.first().map_or(false, |x| *x >= 128) {
        v.push(0);
    }
    v.extend(b);
    eb(&v)
}
pub fn elist(l: &[String]) -> Vec<u8> {
    eb(&l.iter().map(|s| es(s)).collect::<Vec<_>>().concat())
}
pub fn emap(m: &BTreeMap<String, String>) -> Vec<u8> {
    let mut o = vec![];
    for (k, v) in m {
        o.extend(es(k));
        o.extend(if v.is_empty() { eb(&[]) } else { eb(&es(v)) });
    }
    eb(&o)
}

// ---------------------------------------------------------------- names

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fam {
    Rsa,
    Ec,
    Ed,
}

pub struct Kt {
    pub name: &'static str,
    pub plain: &'static str,
    pub fam: Fam,
    pub cert: bool,
    pub sk: bool,
}

pub const NAMES: &[Kt] = &[
    Kt { name: "ssh-rsa", plain: "ssh-rsa", fam: Fam::Rsa, cert: false, sk: false },
    Kt { name: "rsa-sha2-256", plain: "ssh-rsa", fam: Fam::Rsa, cert: false, sk: false },
    Kt { name: "rsa-sha2-512", plain: "ssh-rsa", fam: Fam::Rsa, cert: false, sk: false },
    Kt { name: "ecdsa-sha2-nistp256", plain: "ecdsa-sha2-nistp256", fam: Fam::Ec, cert: false, sk: false },
    Kt { name: "ecdsa-sha2-nistp384", plain: "ecdsa-sha2-nistp384", fam: Fam::Ec, cert: false, sk: false },
    Kt { name: "ecdsa-sha2-nistp521", plain: "ecdsa-sha2-nistp521", fam: Fam::Ec, cert: false, sk: false },
    Kt { name: "ssh-ed25519", plain: "ssh-ed25519", fam: Fam::Ed, cert: false, sk: false },
    Kt { name: "sk-ecdsa-sha2-nistp256@openssh.com", plain: "sk-ecdsa-sha2-nistp256@openssh.com", fam: Fam::Ec, cert: false, sk: true },
    Kt { name: "sk-ssh-ed25519@openssh.com", plain: "sk-ssh-ed25519@openssh.com", fam: Fam::Ed, cert: false, sk: true },
    Kt { name: "ssh-rsa-cert-v01@openssh.com", plain: "ssh-rsa", fam: Fam::Rsa, cert: true, sk: false },
    Kt { name: "ecdsa-sha2-nistp256-cert-v01@openssh.com", plain: "ecdsa-sha2-nistp256", fam: Fam::Ec, cert: true, sk: false },
    Kt { name: "ecdsa-sha2-nistp384-cert-v01@openssh.com", plain: "ecdsa-sha2-nistp384", fam: Fam::Ec, cert: true, sk: false },
    Kt { name: "ecdsa-sha2-nistp521-cert-v01@openssh.com", plain: "ecdsa-sha2-nistp521", fam: Fam::Ec, cert: true, sk: false },
    Kt { name: "ssh-ed25519-cert-v01@openssh.com", plain: "ssh-ed25519", fam: Fam::Ed, cert: true, sk: false },
    Kt { name: "sk-ssh-ed25519-cert-v01@openssh.com", plain: "sk-ssh-ed25519@openssh.com", fam: Fam::Ed, cert: true, sk: true },
    Kt { name: "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com", plain: "sk-ecdsa-sha2-nistp256@openssh.com", fam: Fam::Ec, cert: true, sk: true },
];

impl Kt {
    /// the library's key kind: family, and certificate or not (hardware-backed certificate names count as keys)
    pub fn kind(&self) -> (Fam, bool) {
        (self.fam, self.cert && !self.sk)
    }
}

pub fn kt(n: &str) -> Option<&'static Kt> {
    NAMES.iter().find(|k| k.name == n)
}
pub const CURVES: &[&str] = &["nistp256", "nistp384", "nistp521"];

// ---------------------------------------------------------------- public keys

#[derive(Clone, PartialEq, Debug)]
pub enum Body {
    Rsa { e: Vec<u8>, n: Vec<u8> },
    Ec { curve: String, key: Vec<u8>, app: Option<String> },
    Ed { key: Vec<u8>, app: Option<String> },
}
#[derive(Clone, PartialEq, Debug)]
pub struct Pk {
    pub name: String,
    pub body: Body,
}

pub fn pk_body(name: &str, r: &mut Rd<'_>) -> R<Pk> {
    let k = kt(name).ok_or(E::Bad)?;
    let body = match k.fam {
        Fam::Rsa => Body::Rsa { e: r.mpint()?, n: r.mpint()? },
        Fam::Ec => {
            let curve = r.string()?;
            if !CURVES.contains(&curve.as_str()) {
                return Err(E::Bad);
            }
            Body::Ec { curve, key: r.bytes()?, app: if k.sk { Some(r.string()?) } else { None } }
        }
        Fam::Ed => Body::Ed { key: r.bytes()?, app: if k.sk { Some(r.string()?) } else { None } },
    };
    Ok(Pk { name: name.to_string(), body })
}

pub fn pk_blob(b: &[u8]) -> R<Pk> {
    let mut r = Rd::new(b);
    let n = r.string()?;
    pk_body(&n, &mut r)
}

pub fn pk_text(s: &str) -> Option<(Pk, Option<String>)> {
    let mut it = s.split_whitespace();
    let n = it.next()?;
    let d = base64::decode(it.next()?).ok()?;
    let c = it.next().map(|x| x.to_string());
    let p = pk_blob(&d).ok()?;
    if p.name != n {
        return None;
    }
    Some((p, c))
}

pub fn pk_data(p: &Pk) -> Vec<u8> {
    match &p.body {
        Body::Rsa { e, n } => [emp(e), emp(n)].concat(),
        Body::Ec { curve, key, app } => [es(curve), eb(key), app.as_ref().map_or(vec![], |a| es(a))].concat(),
        Body::Ed { key, app } => [eb(key), app.as_ref().map_or(vec![], |a| es(a))].concat(),
    }
}
/// canonical wire form: under the plain name
pub fn pk_canon(p: &Pk) -> Vec<u8> {
    [es(kt(&p.name).unwrap().plain), pk_data(p)].concat()
}
/// under its own name
pub fn pk_wire(p: &Pk) -> Vec<u8> {
    [es(&p.name), pk_data(p)].concat()
}

// ---------------------------------------------------------------- signatures

pub fn sha256(b: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA256, b).as_ref().to_vec()
}

pub fn sk_message(app: &str, flags: u8, counter: u32, msg: &[u8]) -> Vec<u8> {
    [sha256(app.as_bytes()), vec![flags], e32(counter), sha256(msg)].concat()
}

pub fn verify(sig: &[u8], msg: &[u8], pk: &Pk) -> bool {
    verify_(sig, msg, pk).is_ok()
}

fn verify_(sig: &[u8], msg: &[u8], pk: &Pk) -> R<()> {
    let bad = |_| E::Bad;
    let mut r = Rd::new(sig);
    let name = r.string()?;
    let k = kt(&pk.name).ok_or(E::Bad)?;
    let s = kt(&name).ok_or(E::Bad)?;
    if k.kind() != s.kind() {
        return Err(E::Bad);
    }
    match &pk.body {
        Body::Ec { key, app, .. } => {
            let inner = r.bytes()?;
            let mut i = Rd::new(&inner);
            let (alg, len): (&dyn rs::VerificationAlgorithm, usize) = match name.as_str() {
                "ecdsa-sha2-nistp256" | "sk-ecdsa-sha2-nistp256@openssh.com" => (&rs::ECDSA_P256_SHA256_FIXED, 32),
                "ecdsa-sha2-nistp384" => (&rs::ECDSA_P384_SHA384_FIXED, 48),
                _ => return Err(E::Bad),
            };
            let (a, b) = (i.mpint()?, i.mpint()?);
            if a.len() > len || b.len() > len {
                return Err(E::Bad);
            }
            let fixed = [vec![0; len - a.len()], a, vec![0; len - b.len()], b].concat();
            let m = match app {
                Some(app) => {
                    let f = r.raw(1)?[0];
                    sk_message(app, f, r.u32()?, msg)
                }
                None => msg.to_vec(),
            };
            rs::UnparsedPublicKey::new(alg, key).verify(&m, &fixed).map_err(bad)
        }
        Body::Rsa { e, n } => {
            let alg = match name.as_str() {
                "ssh-rsa" => &rs::RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY,
                "rsa-sha2-256" => &rs::RSA_PKCS1_2048_8192_SHA256,
                "rsa-sha2-512" => &rs::RSA_PKCS1_2048_8192_SHA512,
                _ => return Err(E::Bad),
            };
            let s = r.bytes()?;
            rs::RsaPublicKeyComponents { n, e }.verify(alg, msg, &s).map_err(bad)
        }
        Body::Ed { key, app } => {
            if !["ssh-ed25519", "sk-ssh-ed25519@openssh.com"].contains(&name.as_str()) {
                return Err(E::Bad);
            }
            let s = r.bytes()?;
            let m = match app {
                Some(app) => {
                    let f = r.raw(1)?[0];
                    sk_message(app, f, r.u32()?, msg)
                }
                None => msg.to_vec(),
            };
            rs::UnparsedPublicKey::new(&rs::ED25519, key).verify(&m, &s).map_err(bad)
        }
    }
}

// ---------------------------------------------------------------- certificates

#[derive(Clone, PartialEq, Debug)]
pub struct Cert {
    pub name: String,
    pub nonce: Vec<u8>,
    pub key: Pk,
    pub serial: u64,
    pub role: u32,
    pub key_id: String,
    pub principals: Vec<String>,
    pub after: u64,
    pub before: u64,
    pub critical: BTreeMap<String, String>,
    pub extensions: BTreeMap<String, String>,
    pub reserved: Vec<u8>,
    pub ca: Pk,
    pub sig: Vec<u8>,
    pub signed: usize,
}

fn options(b: &[u8]) -> R<BTreeMap<String, String>> {
    let mut r = Rd::new(b);
    let mut m = BTreeMap::new();
    while r.o < b.len() {
        let k = r.string()?;
        let v = r.bytes()?;
        let v = if v.is_empty() { String::new() } else { Rd::new(&v).string()? };
        m.insert(k, v);
    }
    Ok(m)
}

pub fn cert_fields(b: &[u8]) -> R<Cert> {
    let mut r = Rd::new(b);
    let name = r.string()?;
    let k = kt(&name).ok_or(E::Bad)?;
    if !k.cert {
        return Err(E::Bad);
    }
    let nonce = r.bytes()?;
    let key = pk_body(k.plain, &mut r)?;
    let serial = r.u64()?;
    let role = r.u32()?;
    if role != 1 && role != 2 {
        return Err(E::Bad);
    }
    let key_id = r.string()?;
    let pl = r.bytes()?;
    let mut principals = vec![];
    let mut pr = Rd::new(&pl);
    while pr.o < pl.len() {
        principals.push(pr.string()?);
    }
    let after = r.u64()?;
    let before = r.u64()?;
    let critical = options(&r.bytes()?)?;
    let extensions = options(&r.bytes()?)?;
    let reserved = r.bytes()?;
    let ca = pk_blob(&r.bytes()?)?;
    let signed = r.o;
    let sig = r.bytes()?;
    Ok(Cert { name, nonce, key, serial, role, key_id, principals, after, before, critical, extensions, reserved, ca, sig, signed })
}

pub fn cert(b: &[u8]) -> Option<Cert> {
    let c = cert_fields(b).ok()?;
    if !verify(&c.sig, &b[..c.signed], &c.ca) {
        return None;
    }
    Some(c)
}

pub fn cert_text(s: &str) -> Option<(Cert, Vec<u8>, Option<String>)> {
    let mut it = s.split_whitespace();
    let o = kt(it.next()?)?;
    let d = base64::decode(it.next()?).ok()?;
    let c = it.next().map(|x| x.to_string());
    let p = cert(&d)?;
    let i = kt(&p.name).unwrap();
    if o.kind() != i.kind() {
        return None;
    }
    Some((p, d, c))
}

/// encoding of the fields up to the signature, reserved field empty
pub fn tbs(c: &Cert) -> Vec<u8> {
    [
        es(&c.name), eb(&c.nonce), pk_data(&c.key), e64(c.serial), e32(c.role), es(&c.key_id), elist(&c.principals),
        e64(c.after), e64(c.before), emap(&c.critical), emap(&c.extensions), eb(&[]), eb(&pk_canon(&c.ca)),
    ].concat()
}

// ---------------------------------------------------------------- SSHSIG

#[derive(Clone, PartialEq, Debug)]
pub struct Sig {
    pub pk: Pk,
    pub ns: String,
    pub hash: String,
    pub sig: Vec<u8>,
}

pub fn sshsig(b: &[u8]) -> R<Sig> {
    let mut r = Rd::new(b);
    if r.raw(6)? != b"SSHSIG" || r.u32()? != 1 {
        return Err(E::Bad);
    }
    let pk = pk_blob(&r.bytes()?)?;
    let ns = r.string()?;
    if ns.is_empty() {
        return Err(E::Bad);
    }
    r.string()?;
    let hash = r.string()?;
    if hash != "sha256" && hash != "sha512" {
        return Err(E::Bad);
    }
    Ok(Sig { pk, ns, hash, sig: r.bytes()? })
}

/// decoded body of the armor
pub fn armor(s: &str, what: &str) -> Option<Vec<u8>> {
    let l: Vec<&str> = s.lines().collect();
    if l.first()? != &format!("-----BEGIN {}-----", what) {
        return None;
    }
    let end = l.iter().skip(1).position(|x| *x == format!("-----END {}-----", what))?;
    base64::decode(l[1..1 + end].concat()).ok()
}

pub fn sig_text(s: &str) -> Option<Sig> {
    sshsig(&armor(s, "SSH SIGNATURE")?).ok()
}

pub fn sig_wire(s: &Sig) -> Vec<u8> {
    [b"SSHSIG".to_vec(), e32(1), eb(&pk_wire(&s.pk)), es(&s.ns), eb(&[]), es(&s.hash), eb(&s.sig)].concat()
}

pub fn signed_data(ns: &str, hash: &str, msg: &[u8]) -> Vec<u8> {
    let h = if hash == "sha256" { sha256(msg) } else { digest::digest(&digest::SHA512, msg).as_ref().to_vec() };
    [b"SSHSIG".to_vec(), es(ns), eb(&[]), es(hash), eb(&h)].concat()
}

// ---------------------------------------------------------------- private keys

#[derive(Clone, PartialEq, Debug)]
pub enum Sec {
    Rsa { d: Vec<u8>, iqmp: Vec<u8>, p: Vec<u8>, q: Vec<u8> },
    Plain(Vec<u8>),
    Sk { flags: u8, handle: Vec<u8>, reserved: Vec<u8> },
}
#[derive(Clone, PartialEq, Debug)]
pub struct Priv {
    pub pk: Pk,
    pub sec: Sec,
    pub comment: String,
    pub check: u32,
}

pub fn priv_body(r: &mut Rd<'_>) -> R<Priv> {
    let name = r.string()?;
    let k = kt(&name).ok_or(E::Bad)?;
    if k.kind().1 {
        return Err(E::Bad);
    }
    let (body, sec) = match k.fam {
        Fam::Rsa => {
            let (n, e, d, iqmp, p, q) = (r.mpint()?, r.mpint()?, r.mpint()?, r.mpint()?, r.mpint()?, r.mpint()?);
            if p.is_empty() || q.is_empty() || p == [1] || q == [1] {
                return Err(E::Bad);
            }
            (Body::Rsa { e, n }, Sec::Rsa { d, iqmp, p, q })
        }
        f => {
            let curve = if f == Fam::Ec { Some(r.string()?) } else { None };
            if let Some(c) = &curve {
                if !CURVES.contains(&c.as_str()) {
                    return Err(E::Bad);
                }
            }
            let key = r.bytes()?;
            let (app, sec) = if k.sk {
                let app = Some(r.string()?);
                (app, Sec::Sk { flags: r.raw(1)?[0], handle: r.bytes()?, reserved: r.bytes()? })
            } else {
                (None, Sec::Plain(r.bytes()?))
            };
            (match curve { Some(curve) => Body::Ec { curve, key, app }, None => Body::Ed { key, app } }, sec)
        }
    };
    Ok(Priv { pk: Pk { name, body }, sec, comment: r.string()?, check: 0 })
}

pub enum Load {
    Key(Priv),
    Encrypted,
    Unsupported,
    Bad,
}

pub fn private(b: &[u8], pass: Option<&str>) -> Load {
    private_(b, pass).unwrap_or(Load::Bad)
}

fn private_(b: &[u8], pass: Option<&str>) -> R<Load> {
    let mut r = Rd::new(b);
    if r.cstring()? != "openssh-key-v1" {
        return Err(E::Bad);
    }
    let (cipher, kdf, opts) = (r.string()?, r.string()?, r.bytes()?);
    if r.u32()? != 1 {
        return Err(E::Bad);
    }
    let outer = pk_blob(&r.bytes()?)?;
    let n = r.u32()? as usize;
    let mut inner = r.raw(n)?;
    match (cipher.as_str(), kdf.as_str(), pass) {
        ("none", "none", _) => (),
        ("aes256-ctr", "bcrypt", None) => return Ok(Load::Encrypted),
        ("aes256-ctr", "bcrypt", Some(p)) => {
            let mut o = Rd::new(&opts);
            let salt = o.bytes()?;
            let rounds = o.u32()?;
            crypt(p, &salt, rounds, &mut inner).ok_or(E::Bad)?;
        }
        _ => return Ok(Load::Unsupported),
    }
    let mut i = Rd::new(&inner);
    let (a, b) = (i.u32()?, i.u32()?);
    if a != b {
        return Err(E::Bad);
    }
    let mut k = priv_body(&mut i)?;
    if k.pk != outer {
        return Err(E::Bad);
    }
    k.check = a;
    Ok(Load::Key(k))
}

pub fn crypt(pass: &str, salt: &[u8], rounds: u32, data: &mut [u8]) -> Option<()> {
    use aes::cipher::{generic_array::GenericArray, NewCipher, StreamCipher};
    let mut out = [0u8; 48];
    bcrypt_pbkdf::bcrypt_pbkdf(pass, salt, rounds, &mut out).ok()?;
    aes::Aes256Ctr::new(GenericArray::from_slice(&out[..32]), GenericArray::from_slice(&out[32..])).try_apply_keystream(data).ok()
}

pub fn priv_section(k: &Priv) -> Vec<u8> {
    let mut w = [e32(k.check), e32(k.check), es(&k.pk.name)].concat();
    match (&k.pk.body, &k.sec) {
        (Body::Rsa { e, n }, Sec::Rsa { d, iqmp, p, q }) => w.extend([emp(n), emp(e), emp(d), emp(iqmp), emp(p), emp(q)].concat()),
        (_, Sec::Plain(s)) => { w.extend(pk_data(&k.pk)); w.extend(eb(s)); }
        (_, Sec::Sk { flags, handle, reserved }) => { w.extend(pk_data(&k.pk)); w.push(*flags); w.extend(eb(handle)); w.extend(eb(reserved)); }
        _ => unreachable!(),
    }
    w.extend(es(&k.comment));
    let mut i = 1;
    while w.len() % 8 != 0 {
        w.push(i);
        i += 1;
    }
    w
}

pub fn priv_container(k: &Priv) -> Vec<u8> {
    [b"openssh-key-v1\0".to_vec(), es("none"), es("none"), eb(&[]), e32(1), eb(&pk_wire(&k.pk)), eb(&priv_section(k))].concat()
}

pub fn wrap(what: &str, b: &[u8], width: usize) -> String {
    let t = base64::encode(b);
    let mut o = format!("-----BEGIN {}-----\n", what);
    for c in t.as_bytes().chunks(width) {
        o.push_str(std::str::from_utf8(c).unwrap());
        o.push('\n');
    }
    o.push_str(&format!("-----END {}-----\n", what));
    o
}

// ---------------------------------------------------------------- DER ECDSA signatures

pub fn der_sig(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    // the sequence length itself is not examined
    if b.len() < 4 || b[0] != 0x30 || b[2] != 2 {
        return None;
    }
    let rl = b[3] as usize;
    let r = b.get(4..4 + rl)?.to_vec();
    let rest = &b[4 + rl..];
    // a second integer of at least one byte that ends the input
    if rest.len() < 3 || rest[0] != 2 || rest[1] as usize != rest.len() - 2 {
        return None;
    }
    Some((r, rest[2..].to_vec()))
}
