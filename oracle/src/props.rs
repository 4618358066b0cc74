//! One bounded, seeded comparison of the real library with the executable specification per property.
use crate::gen::*;
use crate::signers;
use crate::spec::*;
use crate::util::*;
use crate::x;
use sshcerts::ssh::*;
use std::collections::{BTreeMap, HashMap};

type V = Result<bool, String>;

macro_rules! want {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

// ---------------------------------------------------------------- comparisons

fn kind_name(k: &KeyTypeKind) -> (Fam, bool) {
    match k {
        KeyTypeKind::Rsa => (Fam::Rsa, false),
        KeyTypeKind::Ecdsa => (Fam::Ec, false),
        KeyTypeKind::Ed25519 => (Fam::Ed, false),
        KeyTypeKind::RsaCert => (Fam::Rsa, true),
        KeyTypeKind::EcdsaCert => (Fam::Ec, true),
        KeyTypeKind::Ed25519Cert => (Fam::Ed, true),
    }
}

fn same_kt(a: &KeyType, n: &str) -> Result<(), String> {
    let k = kt(n).ok_or("unknown type accepted")?;
    want!(a.name == k.name && a.plain == k.plain && a.is_cert == k.cert && a.is_sk == k.sk && kind_name(&a.kind) == k.kind(), "key type {:?} where {} is specified", a, n);
    Ok(())
}

fn same_curve(c: &Curve, n: &str) -> Result<(), String> {
    let k = match n { "nistp256" => CurveKind::Nistp256, "nistp384" => CurveKind::Nistp384, _ => CurveKind::Nistp521 };
    want!(c.identifier == n && c.kind == k, "curve {:?} where {} is specified", c, n);
    Ok(())
}

pub fn same_pk(a: &PublicKey, p: &Pk) -> Result<(), String> {
    same_kt(&a.key_type, &p.name)?;
    match (&a.kind, &p.body) {
        (PublicKeyKind::Rsa(k), Body::Rsa { e, n }) => want!(&k.e == e && &k.n == n, "RSA key {:?}, specified {:?}", k, p),
        (PublicKeyKind::Ecdsa(k), Body::Ec { curve, key, app }) => {
            same_curve(&k.curve, curve)?;
            want!(&k.key == key && &k.sk_application == app, "ECDSA key {:?}, specified {:?}", k, p)
        }
        (PublicKeyKind::Ed25519(k), Body::Ed { key, app }) => want!(&k.key == key && &k.sk_application == app, "Ed25519 key {:?}, specified {:?}", k, p),
        _ => return Err(format!("key {:?}, specified {:?}", a, p)),
    }
    Ok(())
}

/// library value of a specified key, made without any parser
pub fn mk_pk(p: &Pk) -> PublicKey {
    let key_type = KeyType::from_name(&p.name).unwrap();
    let kind = match &p.body {
        Body::Rsa { e, n } => PublicKeyKind::Rsa(RsaPublicKey { e: e.clone(), n: n.clone() }),
        Body::Ec { curve, key, app } => PublicKeyKind::Ecdsa(EcdsaPublicKey { curve: Curve::from_identifier(curve).unwrap(), key: key.clone(), sk_application: app.clone() }),
        Body::Ed { key, app } => PublicKeyKind::Ed25519(Ed25519PublicKey { key: key.clone(), sk_application: app.clone() }),
    };
    PublicKey { key_type, kind, comment: None }
}

fn map(m: &HashMap<String, String>) -> BTreeMap<String, String> {
    m.iter().map(|(a, b)| (a.clone(), b.clone())).collect()
}

fn role(c: CertType) -> u32 {
    match c { CertType::User => 1, CertType::Host => 2 }
}

fn same_cert(a: &Certificate, c: &Cert, blob: &[u8], comment: &Option<String>) -> Result<(), String> {
    same_kt(&a.key_type, &c.name)?;
    want!(a.nonce == c.nonce, "nonce {:?}, specified {:?}", a.nonce, c.nonce);
    same_pk(&a.key, &c.key).map_err(|e| "subject key: ".to_string() + &e)?;
    want!(a.serial == c.serial, "serial {}, specified {}", a.serial, c.serial);
    want!(role(a.cert_type) == c.role, "role {:?}, specified {}", a.cert_type, c.role);
    want!(a.key_id == c.key_id, "key id {:?}, specified {:?}", a.key_id, c.key_id);
    want!(a.principals == c.principals, "principals {:?}, specified {:?}", a.principals, c.principals);
    want!(a.valid_after == c.after && a.valid_before == c.before, "validity {} {}, specified {} {}", a.valid_after, a.valid_before, c.after, c.before);
    want!(map(&a.critical_options) == c.critical, "critical options {:?}, specified {:?}", a.critical_options, c.critical);
    want!(map(&a.extensions) == c.extensions, "extensions {:?}, specified {:?}", a.extensions, c.extensions);
    want!(a.reserved == c.reserved, "reserved {:?}, specified {:?}", a.reserved, c.reserved);
    same_pk(&a.signature_key, &c.ca).map_err(|e| "CA key: ".to_string() + &e)?;
    want!(a.signature == c.sig, "signature {:?}, specified {:?}", a.signature, c.sig);
    want!(a.serialized == blob, "stored bytes differ from the input");
    want!(&a.comment == comment, "comment {:?}, specified {:?}", a.comment, comment);
    Ok(())
}

// ---------------------------------------------------------------- C01, C02

fn cert_case(b: &[u8], authentic_only: bool) -> V {
    let got = Certificate::from_bytes(b);
    if authentic_only {
        if let Ok(c) = got {
            let f = cert_fields(b).map_err(|e| format!("accepted although the blob has no certificate layout ({:?})", e))?;
            want!(verify(&f.sig, &b[..f.signed], &f.ca), "accepted although the carried signature does not verify under the carried CA key over the preceding bytes");
            let _ = c;
            return Ok(true);
        }
        return Ok(false);
    }
    match (got, cert(b)) {
        (Ok(a), Some(c)) => same_cert(&a, &c, b, &None).map(|_| true),
        (Err(_), None) => Ok(false),
        (Ok(_), None) => match cert_fields(b) {
            Ok(_) => Ok(false), // a signature matter (C01)
            Err(_) => Err("malformed certificate accepted".into()),
        },
        (Err(e), Some(_)) => Err(format!("well-formed certificate with a valid signature refused: {}", e)),
    }
}

fn cert_text_case(s: &str, authentic_only: bool) -> V {
    let got = Certificate::from_string(s);
    let spec = cert_text(s);
    match (got, spec) {
        (Ok(a), Some((c, d, cm))) => if authentic_only { Ok(true) } else { same_cert(&a, &c, &d, &cm).map(|_| true) },
        (Err(_), None) => Ok(false),
        (Ok(a), None) => {
            let bad_sig = cert(&a.serialized).is_none();
            if bad_sig == authentic_only { Err("text accepted that is no authentic certificate of the announced kind".into()) } else { Ok(true) }
        }
        (Err(e), Some(_)) => if authentic_only { Ok(false) } else { Err(format!("well-formed certificate text refused: {}", e)) },
    }
}

pub fn certs(c: &mut Ctx, keys: &[Key], auth: bool) {
    for b in special_certs(&mut c.rng, keys) {
        c.case("Certificate::from_bytes", || hex(&b), || cert_case(&b, auth));
    }
    while c.more() {
        let g = &mut c.rng;
        let b = cert_blob(g, keys);
        if g.one_in(4) {
            let f = cert_fields(&b);
            let n = match &f { Ok(f) if !g.one_in(6) => f.name.clone(), _ => g.pick(NAMES).name.to_string() };
            let mut s = match g.below(4) { 0 => format!("{} {}", n, base64::encode(&b)), 1 => format!("  {}\t{} {} more", n, base64::encode(&b), g.word()), _ => format!("{} {} {}\n", n, base64::encode(&b), g.word()) };
            if g.one_in(8) {
                s = mutate_text(g, &s);
            }
            c.case("Certificate::from_string", || s.clone(), || cert_text_case(&s, auth));
        } else {
            c.case("Certificate::from_bytes", || hex(&b), || cert_case(&b, auth));
        }
    }
}

/// certificates aimed at each way a CA or signature can be out of line
fn special_certs(g: &mut Rng, keys: &[Key]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let subj = keys[0].pk.clone();
    let mk = |ca: &[u8], sig: &dyn Fn(&[u8]) -> Vec<u8>| -> Vec<u8> {
        let b = [es("ssh-ed25519-cert-v01@openssh.com"), eb(&[5; 32]), pk_data(&subj), e64(7), e32(1), es("id"), elist(&["a".into(), "".into(), "b".into()]), e64(0), e64(u64::MAX), eb(&[]), emap(&[("".to_string(), "".to_string()), ("permit-pty".to_string(), "".to_string())].into_iter().collect()), eb(&[]), eb(ca)].concat();
        let s = sig(&b);
        [b, eb(&s)].concat()
    };
    for k in keys {
        let wire = pk_wire(&k.pk);
        // right
        let seed = g.u64();
        v.push(mk(&wire, &|b| k.sign(&mut Rng::new(seed), b)));
        // every signature name with junk, empty or another key's signature
        for n in NAMES {
            v.push(mk(&wire, &|_| [es(n.name), eb(&[])].concat()));
            v.push(mk(&wire, &|_| es(n.name)));
            v.push(mk(&wire, &|_| [es(n.name), eb(&[eb(&[1; 32]), eb(&[1; 32])].concat()), vec![1, 0, 0, 0, 9]].concat()));
            v.push(mk(&wire, &|b| { let s = k.sign(&mut Rng::new(seed), b); let mut r = Rd::new(&s); r.string().unwrap(); [es(n.name), s[r.o..].to_vec()].concat() }));
        }
        v.push(mk(&wire, &|_| vec![]));
        v.push(mk(&wire, &|b| k.sign(&mut Rng::new(seed), &b[..b.len() - 1])));
        v.push(mk(&wire, &|b| k.sign(&mut Rng::new(seed), &[b, &[0][..]].concat())));
        v.push(mk(&wire, &|_| k.sign(&mut Rng::new(seed), &[])));
    }
    // CA keys of every type name around a real key's material
    for n in NAMES {
        for k in keys {
            if kt(n.name).unwrap().fam == kt(&k.pk.name).unwrap().fam {
                let mut p = k.pk.clone();
                p.name = n.name.into();
                match &mut p.body { Body::Ec { app, .. } | Body::Ed { app, .. } => *app = if n.sk { Some("ssh:".into()) } else { None }, _ => () }
                let seed = g.u64();
                v.push(mk(&pk_wire(&p), &|b| k.sign(&mut Rng::new(seed), b)));
                v.push(mk(&pk_wire(&p), &|b| { let s = k.sign(&mut Rng::new(seed), b); let mut r = Rd::new(&s); r.string().unwrap(); [es(n.name), s[r.o..].to_vec()].concat() }));
                v.push(mk(&pk_wire(&p), &|_| [es(n.name), eb(&[])].concat()));
            }
        }
    }
    for curve in CURVES {
        for n in ["ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521"] {
            let p = Pk { name: n.into(), body: Body::Ec { curve: curve.to_string(), key: vec![4; 133], app: None } };
            for s in ["ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521"] {
                v.push(mk(&pk_wire(&p), &|_| [es(s), eb(&[emp(&[1; 66]), emp(&[1; 66])].concat())].concat()));
                v.push(mk(&pk_wire(&p), &|_| [es(s), eb(&[emp(&[1; 32]), emp(&[1; 32])].concat())].concat()));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C03, C04

struct Signer<'a>(Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + 'a>);
impl SSHCertificateSigner for Signer<'_> {
    fn sign(&self, b: &[u8]) -> Option<Vec<u8>> {
        (self.0)(b)
    }
}

fn fields_of(c: &Certificate) -> (String, Vec<u8>, PublicKey, u64, u32, String, Vec<String>, u64, (u64, BTreeMap<String, String>, BTreeMap<String, String>, PublicKey, Option<String>)) {
    (c.key_type.name.to_string(), c.nonce.clone(), c.key.clone(), c.serial, role(c.cert_type), c.key_id.clone(), c.principals.clone(), c.valid_after, (c.valid_before, map(&c.critical_options), map(&c.extensions), c.signature_key.clone(), c.comment.clone()))
}

pub fn issue(c: &mut Ctx, keys: &[Key], roundtrip: bool) {
    let std_ext: BTreeMap<String, String> = ["permit-agent-forwarding", "permit-port-forwarding", "permit-pty", "permit-user-rc", "permit-X11-forwarding"].iter().map(|x| (x.to_string(), String::new())).collect();
    let mut nonces = std::collections::HashSet::new();
    while c.more() {
        let g = &mut c.rng;
        // subject types a certificate exists for; parsed certificates' keys carry plain names
        let mut subj = any_pk(g, keys, false);
        if roundtrip && subj.name.starts_with("rsa-sha2") {
            subj.name = "ssh-rsa".into();
        }
        let ca = g.pick(keys);
        let host = g.one_in(2);
        let plain = kt(&subj.name).unwrap().plain;
        let mut w = Cert {
            name: NAMES.iter().find(|k| k.cert && k.plain == plain).unwrap().name.into(), nonce: vec![], key: subj.clone(), serial: 0, role: 1 + host as u32, key_id: String::new(),
            principals: vec![], after: 0, before: 0, critical: BTreeMap::new(), extensions: BTreeMap::new(), reserved: vec![], ca: ca.pk.clone(), sig: vec![], signed: 0,
        };
        let mut comment: Option<String> = None;
        // now and then the issued certificate is changed and signed again
        let rounds = if g.one_in(3) { 2 + g.below(2) } else { 1 };
        let mut all = vec![];
        for i in 0..rounds {
            let mut ops = vec![];
            for _ in 0..g.below(if i == 0 { 12 } else { 3 }) {
                ops.push((g.below(11), g.num64(), g.text(), g.text(), (0..g.count(4, 2000)).map(|_| g.text()).collect::<Vec<_>>(), options(g)));
            }
            all.push((ops, if i + 1 < rounds { 8 } else { g.below(9) }, g.u64(), g.one_in(3)));
        }
        let other = g.pick(keys);
        let desc = format!("subject {:?} CA {} host={} (calls, signer, seed, goes on from the parsed certificate) per round={:?}", subj, ca.pk.name, host, all);
        c.case(if roundtrip { "issue then parse" } else { "issue" }, || desc.clone(), || {
            let mut b = Certificate::builder(&mk_pk(&subj), if host { CertType::Host } else { CertType::User }, &mk_pk(&ca.pk)).map_err(|e| format!("builder fails: {}", e))?;
            want!(b.nonce.len() == 32 && b.nonce != vec![0; 32] && nonces.insert(b.nonce.clone()), "nonce not fresh: {:?}", b.nonce);
            w.nonce = b.nonce.clone();
            w.serial = b.serial;
            want!(b.signature.is_empty() && b.serialized.is_empty() && b.comment.is_none(), "fresh builder not empty");
            let spec_of = |w: &Cert, cm: &Option<String>| (w.name.clone(), w.nonce.clone(), mk_pk(&w.key), w.serial, w.role, w.key_id.clone(), w.principals.clone(), w.after, (w.before, w.critical.clone(), w.extensions.clone(), mk_pk(&w.ca), cm.clone()));
            want!(fields_of(&b) == spec_of(&w, &comment), "fresh builder {:?}", b);
            for (ops, how, seed, reparse) in &all {
                for (op, n, s, t, l, m) in ops {
                    b = match op {
                        0 => { w.serial = *n; b.serial(*n) }
                        1 => { w.key_id = s.clone(); b.key_id(s) }
                        2 => { w.principals.push(s.clone()); b.principal(s) }
                        3 => { w.principals = l.clone(); b.set_principals(l) }
                        4 => { w.after = *n; b.valid_after(*n) }
                        5 => { w.before = *n; b.valid_before(*n) }
                        6 => { w.critical.insert(s.clone(), t.clone()); b.critical_option(s, t) }
                        7 => { w.critical = m.clone(); b.set_critical_options(m.clone().into_iter().collect()) }
                        8 => { w.extensions.insert(s.clone(), t.clone()); b.extension(s, t) }
                        9 => { w.extensions = if *n % 3 == 0 { std_ext.clone() } else { m.clone() }; b.set_extensions(if *n % 3 == 0 { Certificate::standard_extensions() } else { m.clone().into_iter().collect() }) }
                        _ => { comment = Some(s.clone()); b.comment(s) }
                    };
                    want!(fields_of(&b) == spec_of(&w, &comment), "after builder call {}: {:?}", op, b);
                }
                let tbs_ = b.tbs_certificate();
                let want_tbs = tbs(&w);
                want!(tbs_ == want_tbs, "to-be-signed bytes {} specified {}", hex(&tbs_), hex(&want_tbs));
                let mut g = Rng::new(*seed);
                let sig: Option<Vec<u8>> = match how {
                    0 => None,
                    1 => Some(other.sign(&mut g, &want_tbs)),
                    2 => Some(ca.sign_any(&mut g, &want_tbs)),
                    3 => Some(ca.sign(&mut g, &want_tbs[1..])),
                    _ => Some(ca.sign(&mut g, &want_tbs)),
                };
                let r = if seed % 2 == 0 || sig.is_none() {
                    let s2 = sig.clone();
                    b.sign(&Signer(Box::new(move |x: &[u8]| { if x == &want_tbs[..] { s2.clone() } else { None } })))
                } else {
                    b.add_signature(sig.as_ref().unwrap())
                };
                let ok = sig.as_ref().map_or(false, |s| verify(s, &tbs_, &w.ca));
                let cert_ = match r {
                    Err(e) => { want!(!ok, "valid signature refused: {}", e); return Ok(false) }
                    Ok(cert_) => cert_,
                };
                want!(ok, "issued with a signature that does not verify");
                let sig = sig.unwrap();
                let blob = [tbs_.clone(), eb(&sig)].concat();
                want!(cert_.serialized == blob && cert_.signature == sig, "stored bytes of the issued certificate");
                want!(fields_of(&cert_) == spec_of(&w, &comment), "signing changed fields");
                if roundtrip {
                    let mut pw = w.clone();
                    pw.sig = sig;
                    pw.ca.name = kt(&w.ca.name).unwrap().plain.into();
                    let p = Certificate::from_bytes(&cert_.serialized).map_err(|e| format!("issued certificate does not parse: {}", e))?;
                    same_cert(&p, &pw, &blob, &None)?;
                    let t = format!("{}", cert_);
                    let p = Certificate::from_string(&t).map_err(|e| format!("displayed certificate does not parse: {}: {}", e, t))?;
                    let cm = t.split_whitespace().nth(2).map(|x| x.to_string());
                    same_cert(&p, &pw, &blob, &cm)?;
                    if *reparse {
                        w = pw;
                        comment = cm;
                        b = p;
                        continue;
                    }
                }
                b = cert_;
            }
            Ok(true)
        });
    }
}

// ---------------------------------------------------------------- C05, C06, C07

fn algo(h: &str) -> HashAlgorithm {
    if h == "sha256" { HashAlgorithm::Sha256 } else { HashAlgorithm::Sha512 }
}

fn show_sig(p: &Pk, ns: &str, h: &str, s: &[u8], m: &[u8]) -> String {
    format!("pubkey={} namespace={:?} hash={} signature={} message={}", hex(&pk_wire(p)), ns, h, hex(s), hex(m))
}

pub fn sigs(c: &mut Ctx, keys: &[Key], binding: bool) {
    if !binding {
        // exhaustive over key x named algorithm
        for k in keys {
            for n in NAMES {
                for variant in 0..3 {
                    let mut g = Rng::new(c.rng.u64());
                    let m = b"message".to_vec();
                    let d = signed_data("ns", "sha512", &m);
                    let s = k.sign(&mut g, &d);
                    let mut r = Rd::new(&s);
                    r.string().unwrap();
                    let s = match variant { 0 => [es(n.name), s[r.o..].to_vec()].concat(), 1 => [es(n.name), eb(&[])].concat(), _ => es(n.name) };
                    let p = k.pk.clone();
                    c.case("verify_signature", || show_sig(&p, "ns", "sha512", &s, &m), || {
                        let got = VerifiedSshSignature::from_ssh_signature(&m, SshSignature { pubkey: mk_pk(&p), namespace: "ns".into(), hash_algorithm: algo("sha512"), signature: s.clone() }, "ns", None).is_ok();
                        let spec = verify(&s, &d, &p);
                        want!(got == spec, "library {} the signature, specification {}", if got { "accepts" } else { "refuses" }, if spec { "accepts" } else { "refuses" });
                        Ok(got)
                    });
                }
            }
        }
        for (i, k) in keys.iter().enumerate() {
            for (m, sig) in rare_of(i) {
                let (p, s, d, m) = (k.pk.clone(), k.rare_blob(&sig), signed_data("file", "sha512", m.as_bytes()), m.into_bytes());
                c.case("verify_signature", || show_sig(&p, "file", "sha512", &s, &m), || {
                    let got = VerifiedSshSignature::from_ssh_signature(&m, SshSignature { pubkey: mk_pk(&p), namespace: "file".into(), hash_algorithm: algo("sha512"), signature: s.clone() }, "file", None).is_ok();
                    want!(verify(&s, &d, &p), "data/rare.txt does not fit the pool of keys");
                    want!(got, "library refuses the signature, specification accepts");
                    Ok(got)
                });
            }
        }
    }
    while c.more() {
        let g = &mut c.rng;
        let k = g.pick(keys);
        let h = *g.pick(&["sha256", "sha512"]);
        let ns = match g.below(4) { 0 => "file".to_string(), 1 => "File".into(), _ => g.text() };
        let m = g.blob();
        let d = signed_data(&ns, h, &m);
        let s = if binding { if g.one_in(5) { k.sign_any(g, &d) } else { k.sign(g, &d) } } else { k.sign_any(g, &d) };
        let mut p = if g.one_in(12) { any_pk(g, keys, true) } else { k.pk.clone() };
        if g.one_in(10) {
            let n = g.pick(NAMES);
            if n.fam == kt(&p.name).unwrap().fam && n.sk == kt(&p.name).unwrap().sk {
                p.name = n.name.into();
            }
        }
        // what the caller asks for
        let (mut ask_ns, mut ask_m, mut ask_k, mut ask_h) = (ns.clone(), m.clone(), if g.one_in(2) { None } else { Some(p.clone()) }, h);
        if binding && g.one_in(2) {
            match g.below(9) {
                0 => ask_ns = ns.to_uppercase(),
                1 => ask_ns = format!("{} ", ns),
                2 => ask_ns = String::new(),
                3 => { ask_ns.pop(); }
                4 => ask_m.push(0),
                5 => ask_m = mutate(g, &m),
                6 => ask_k = Some(any_pk(g, keys, true)),
                7 => ask_h = if h == "sha256" { "sha512" } else { "sha256" },
                _ => { let mut q = p.clone(); match &mut q.body { Body::Rsa { e, .. } => e.push(1), Body::Ec { key, .. } | Body::Ed { key, .. } => { if g.one_in(2) { key.push(0) } else if !key.is_empty() { let i = g.below(key.len()); key[i] ^= 1 } } } ask_k = Some(q) }
            }
        }
        let d2 = signed_data(&ns, ask_h, &ask_m);
        let input = format!("{} | verify with namespace={:?} key={:?} message={}", show_sig(&p, &ns, ask_h, &s, &m), ask_ns, ask_k.as_ref().map(|k| hex(&pk_wire(k))), hex(&ask_m));
        c.case("VerifiedSshSignature::from_ssh_signature", || input, || {
            let got = VerifiedSshSignature::from_ssh_signature(&ask_m, SshSignature { pubkey: mk_pk(&p), namespace: ns.clone(), hash_algorithm: algo(ask_h), signature: s.clone() }, &ask_ns, ask_k.as_ref().map(mk_pk));
            let spec = ask_ns == ns && ask_k.as_ref().map_or(true, |k| k == &p) && verify(&s, &d2, &p);
            want!(got.is_ok() == spec, "library {} where the specification {}", if got.is_ok() { "accepts" } else { "refuses" }, if spec { "accepts" } else { "refuses" });
            if let Ok(v) = &got {
                want!(v.message == ask_m && v.signature.namespace == ns && v.signature.signature == s && v.signature.hash_algorithm.as_str() == ask_h, "verified result does not carry what was verified: {:?}", v);
                same_pk(&v.signature.pubkey, &p)?;
            }
            Ok(spec)
        });
    }
}

fn same_sig(a: &SshSignature, s: &Sig) -> Result<(), String> {
    same_pk(&a.pubkey, &s.pk)?;
    want!(a.namespace == s.ns && a.hash_algorithm.as_str() == s.hash && a.signature == s.sig, "parsed signature {:?}, specified {:?}", a, s);
    Ok(())
}

pub fn sig_texts(c: &mut Ctx, keys: &[Key]) {
    while c.more() {
        let g = &mut c.rng;
        let k = g.pick(keys);
        let p = if g.one_in(3) { any_pk(g, keys, true) } else { k.pk.clone() };
        let s = Sig { pk: p, ns: if g.one_in(15) { String::new() } else { g.text() + "n" }, hash: g.pick(&["sha256", "sha512"]).to_string(), sig: if g.one_in(3) { g.blob() } else { k.sign(g, b"x") } };
        match g.below(8) {
            0 => {
                // display
                c.case("SshSignature::fmt", || format!("{:?}", s), || {
                    if s.ns.is_empty() {
                        return Ok(false);
                    }
                    let t = format!("{}", SshSignature { pubkey: mk_pk(&s.pk), namespace: s.ns.clone(), hash_algorithm: algo(&s.hash), signature: s.sig.clone() });
                    want!(sig_text(&t).as_ref() == Some(&s), "displayed text {:?}", t);
                    let p = SshSignature::from_armored_string(&t).map_err(|e| format!("displayed text does not parse: {}", e))?;
                    same_sig(&p, &s)?;
                    Ok(true)
                });
            }
            1 => {
                let m = g.blob();
                let h = *g.pick(&[None, Some("sha256"), Some("sha512")]);
                let pr = k.private(g);
                if let Some(pr) = pr {
                    c.case("VerifiedSshSignature::new_with_private_key", || format!("{:?} {} {:?} {:?}", pr.pk, hex(&m), s.ns, h), || {
                        if matches!(pr.sec, Sec::Sk { .. }) {
                            return Ok(false); // needs a device
                        }
                        let key = load(&pr)?;
                        let v = VerifiedSshSignature::new_with_private_key(&m, &s.ns, key, h.map(algo)).map_err(|e| format!("signing fails: {}", e))?;
                        let hn = h.unwrap_or("sha512");
                        want!(v.message == m && v.signature.namespace == s.ns && v.signature.hash_algorithm.as_str() == hn, "created {:?}", v);
                        same_pk(&v.signature.pubkey, &pr.pk)?;
                        want!(verify(&v.signature.signature, &signed_data(&s.ns, hn, &m), &pr.pk), "created signature does not verify");
                        if !s.ns.is_empty() {
                            let t = format!("{}", v);
                            want!(sig_text(&t).map_or(false, |x| x.sig == v.signature.signature && x.ns == s.ns), "display of the verified signature");
                        }
                        Ok(true)
                    });
                }
            }
            _ => {
                let mut b = sig_wire(&s);
                match g.below(14) {
                    0 => b = mutate(g, &b),
                    1 => b[9] = g.byte(),
                    2 => { let h = *g.pick(&["sha1", "SHA256", "sha384", "sha512 ", ""]); b = [b"SSHSIG".to_vec(), e32(1), eb(&pk_wire(&s.pk)), es(&s.ns), eb(&[]), es(h), eb(&s.sig)].concat() }
                    3 => { let r = g.blob(); b = [b"SSHSIG".to_vec(), e32(1), eb(&pk_wire(&s.pk)), es(&s.ns), eb(&r), es(&s.hash), eb(&s.sig)].concat() }
                    4 => { let r = g.text(); b = [b"SSHSIG".to_vec(), e32(1), eb(&pk_wire(&s.pk)), es(&s.ns), es(&r), es(&s.hash), eb(&s.sig)].concat() }
                    5 => b.extend(g.blob()),
                    _ => (),
                }
                let wd = *g.pick(&[76, 70, 64, 1, 1000, 4]);
                let mut t = wrap("SSH SIGNATURE", &b, wd);
                match g.below(14) {
                    0 => t = mutate_text(g, &t),
                    1 => t = t.replace('\n', "\r\n"),
                    2 => t = t.trim_end().to_string(),
                    3 => t.push_str("trailing text\nmore"),
                    4 => t = format!("\n{}", t),
                    5 => t = format!(" {}", t),
                    6 => t = t.replace("-----END SSH SIGNATURE-----", *g.pick(&["-----END SSH SIGNATURE----", " -----END SSH SIGNATURE-----", "-----END SSH SIGNATURE----- ", "-----END PGP SIGNATURE-----"])),
                    7 => t = t.replace("BEGIN SSH", *g.pick(&["BEGIN  SSH", "begin ssh", "BEGIN PGP"])),
                    8 => t = t.replacen('\n', "\n\n", 2),
                    9 => t = g.word(),
                    _ => (),
                }
                c.case("SshSignature::from_armored_string", || t.clone(), || match (SshSignature::from_armored_string(&t), sig_text(&t)) {
                    (Ok(a), Some(s)) => same_sig(&a, &s).map(|_| true),
                    (Err(_), None) => Ok(false),
                    (Ok(_), None) => Err("malformed signature text accepted".into()),
                    (Err(e), Some(_)) => Err(format!("well-formed signature text refused: {}", e)),
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C08, C09

fn lib_err(e: sshcerts::error::Error) -> E {
    match e { sshcerts::error::Error::UnexpectedEof => E::Eof, _ => E::Bad }
}

pub fn reader(c: &mut Ctx) {
    while c.more() {
        let g = &mut c.rng;
        let mut b = vec![];
        for _ in 0..g.below(5) {
            match g.below(9) {
                0 => b.extend(e32(g.num64() as u32)),
                1 => b.extend(e64(g.num64())),
                2 => b.extend(eb(&g.blob())),
                3 => b.extend(es(&g.text())),
                4 => { b.extend(g.blob()); b.push(0) }
                5 => b.extend(emp(&g.blob())),
                6 => { let mut v = g.blob(); v.insert(0, *g.pick(&[0, 1, 0x7f, 0x80, 0xff])); b.extend(eb(&v)) }
                7 => b.extend(eb(g.pick(&[vec![0], vec![0, 0x7f], vec![0, 0x80], vec![0x80], vec![], vec![0, 0, 0x80], vec![1], vec![0x7f, 0]]))),
                _ => b.extend(g.blob()),
            }
        }
        if g.one_in(4) {
            b = mutate(g, &b);
        }
        let ops: Vec<(usize, usize)> = (0..1 + g.below(8)).map(|_| {
            let x = match g.below(6) { 0 => usize::MAX, 1 => usize::MAX - 3, 2 => b.len() + g.below(3), 3 => b.len().saturating_sub(g.below(10)), _ => g.below(b.len() + 2) };
            (g.below(9), x)
        }).collect();
        c.case("Reader", || format!("buffer {} operations {:?} (0 u32, 1 u64, 2 bytes, 3 raw n, 4 string, 5 cstring, 6 mpint, 7 set_offset n, 8 get_offset)", hex(&b), ops), || {
            let mut r = Reader::new(&b);
            let mut s = Rd::new(&b);
            let mut good = false;
            for (op, n) in &ops {
                macro_rules! cmp { ($a:expr, $b:expr) => {{
                    let at = s.o;
                    let (a, w) = ($a.map_err(lib_err), $b);
                    let same = match (&a, &w) { (Ok(x), Ok(y)) => x == y, (Err(E::Eof), Err(E::Eof)) => true, (Err(E::Bad), Err(E::Bad)) => true, _ => false };
                    want!(same, "operation {} at {}: {:?}, specified {:?}", op, s.o, a, w);
                    if a.is_err() {
                        want!(matches!(op, 4 | 6) || r.get_offset() == at, "operation {} fails and moves the position from {} to {}", op, at, r.get_offset());
                        r.set_offset(s.o).unwrap();
                    } else { good = true }
                }} }
                match op {
                    0 => cmp!(r.read_u32(), s.u32()),
                    1 => cmp!(r.read_u64(), s.u64()),
                    2 => cmp!(r.read_bytes(), s.bytes()),
                    3 => cmp!(r.read_raw_bytes(*n), s.raw(*n)),
                    4 => cmp!(r.read_string(), s.string()),
                    5 => cmp!(r.read_cstring(), s.cstring()),
                    6 => cmp!(r.read_positive_mpint(), s.mpint()),
                    7 => { r.set_offset(*n).map_err(|e| format!("set_offset fails: {}", e))?; s.o = *n; }
                    _ => (),
                }
                want!(r.get_offset() == s.o, "operation {}: position {}, specified {}", op, r.get_offset(), s.o);
            }
            Ok(good)
        });
    }
}

pub fn writer(c: &mut Ctx, keys: &[Key]) {
    while c.more() {
        let g = &mut c.rng;
        let mut ops = vec![];
        for _ in 0..1 + g.below(6) {
            let mut blob = g.blob();
            for _ in 0..*g.pick(&[0, 0, 1, 3]) {
                blob.insert(0, *g.pick(&[0, 0, 0x80, 0x7f]));
            }
            if g.one_in(8) {
                blob = [vec![0; g.count(12, 2000)], blob].concat();
            }
            ops.push((g.below(11), g.num64(), blob, g.text(), (0..g.count(5, 2000)).map(|_| g.text()).collect::<Vec<_>>(), options(g), any_pk(g, keys, true)));
        }
        c.case("Writer", || format!("{:?}", ops), || {
            let mut w = Writer::new();
            let mut s: Vec<u8> = vec![];
            let mut marks = vec![];
            for (op, n, b, t, l, m, k) in &ops {
                marks.push(s.len());
                match op {
                    0 => { w.write_u32(*n as u32); s.extend(e32(*n as u32)) }
                    1 => { w.write_u64(*n); s.extend(e64(*n)) }
                    2 => { w.write_bytes(b); s.extend(eb(b)) }
                    3 => { w.write_string(t); s.extend(es(t)) }
                    4 => { w.write_raw_bytes(b); s.extend(b) }
                    5 => { w.write_cstring(t); s.extend(t.as_bytes()); s.push(0) }
                    6 => { w.write_mpint(b); s.extend(emp(b)) }
                    7 => { w.write_string_vec(l); s.extend(elist(l)) }
                    8 => { w.write_string_map(&m.clone().into_iter().collect()); s.extend(emap(m)) }
                    9 => { w.write_pub_key(&mk_pk(k)); s.extend(eb(&pk_wire(k))) }
                    _ => { w.write_pub_key_data(&mk_pk(k)); s.extend(pk_data(k)) }
                }
                want!(w.as_bytes() == &s[..], "after write {}: {} specified {}", op, hex(w.as_bytes()), hex(&s));
            }
            let out = w.into_bytes();
            want!(out == s, "into_bytes");
            for (i, (op, n, b, t, _, _, k)) in ops.iter().enumerate() {
                let end = marks.get(i + 1).copied().unwrap_or(s.len());
                let mut r = Reader::new(&out);
                r.set_offset(marks[i]).unwrap();
                let e = |e: sshcerts::error::Error| format!("reading back write {}: {}", op, e);
                match op {
                    0 => want!(r.read_u32().map_err(e)? == *n as u32, "u32 read back"),
                    1 => want!(r.read_u64().map_err(e)? == *n, "u64 read back"),
                    2 => want!(&r.read_bytes().map_err(e)? == b, "bytes read back"),
                    3 => want!(&r.read_string().map_err(e)? == t, "string read back"),
                    6 => { let v: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect(); want!(r.read_positive_mpint().map_err(e)? == v, "mpint read back") }
                    9 => { let v = r.read_bytes().map_err(e)?; same_pk(&PublicKey::from_bytes(&v).map_err(e)?, k)? }
                    _ => continue,
                }
                want!(r.get_offset() == end, "reading back write {} consumes up to {} instead of {}", op, r.get_offset(), end);
            }
            Ok(true)
        });
    }
}

// ---------------------------------------------------------------- C10, C11

fn pk_checks(k: &PublicKey, p: &Pk, comment: &Option<String>) -> Result<(), String> {
    same_pk(k, p)?;
    want!(&k.comment == comment, "comment {:?}, specified {:?}", k.comment, comment);
    let canon = pk_canon(p);
    want!(k.encode() == canon, "encode gives {}, specified {}", hex(&k.encode()), hex(&canon));
    let b = match &p.body { Body::Rsa { n, .. } => n.len() * 8, Body::Ec { curve, .. } => match curve.as_str() { "nistp256" => 256, "nistp384" => 384, _ => 521 }, _ => 256 };
    want!(k.bits() == b, "bits {} specified {}", k.bits(), b);
    for (f, a, n) in [(FingerprintKind::Sha256, &ring::digest::SHA256, "SHA256"), (FingerprintKind::Sha384, &ring::digest::SHA384, "SHA384"), (FingerprintKind::Sha512, &ring::digest::SHA512, "SHA512")] {
        let h = base64::encode_config(ring::digest::digest(a, &canon).as_ref(), base64::STANDARD_NO_PAD);
        let g = k.fingerprint_with(f);
        want!(g.hash == h && format!("{}", g) == format!("{}:{}", n, h), "fingerprint {} specified {}:{}", g, n, h);
        if n == "SHA256" {
            want!(k.fingerprint() == g, "default fingerprint {}", k.fingerprint());
        }
    }
    if p.name == kt(&p.name).unwrap().plain && comment.as_ref().map_or(true, |c| !c.is_empty() && !c.contains(char::is_whitespace)) {
        let mut w = vec![];
        k.write(&mut w).map_err(|e| e.to_string())?;
        let w = String::from_utf8(w).map_err(|e| e.to_string())?;
        for t in [format!("{}", k), w] {
            let b = PublicKey::from_string(&t).map_err(|e| format!("{} for the displayed key {:?}", e, t))?;
            want!(&b == k, "displayed key {:?} parses back to {:?}", t, b);
        }
    }
    Ok(())
}

pub fn pubkeys(c: &mut Ctx, keys: &[Key]) {
    while c.more() {
        let g = &mut c.rng;
        let p = any_pk(g, keys, true);
        let mut b = pk_wire(&p);
        match g.below(10) {
            0 => b = mutate(g, &b),
            1 => b.extend(g.blob()),
            2 => b = [es(&g.text()), pk_data(&p)].concat(),
            3 => if let Body::Ec { key, app, .. } = &p.body { b = [es(&p.name), es(*g.pick(&["nistp224", "NISTP256", "nistp", "", "nistp2560", "secp256r1"])), eb(key), app.as_ref().map_or(vec![], |a| es(a))].concat() },
            4 => if let Body::Rsa { e, n } = &p.body { b = [es(&p.name), eb(&[vec![0; g.below(3)], e.clone()].concat()), eb(&[vec![0; g.below(3)], n.clone()].concat())].concat() },
            _ => (),
        }
        if g.one_in(2) {
            c.case("PublicKey::from_bytes", || hex(&b), || match (PublicKey::from_bytes(&b), pk_blob(&b)) {
                (Ok(k), Ok(p)) => pk_checks(&k, &p, &None).map(|_| true),
                (Err(_), Err(_)) => Ok(false),
                (Ok(k), Err(_)) => Err(format!("malformed key accepted as {:?}", k)),
                (Err(e), Ok(_)) => Err(format!("well-formed key refused: {}", e)),
            });
        } else {
            let n = if g.one_in(8) { g.pick(NAMES).name.to_string() } else { p.name.clone() };
            let mut t = match g.below(6) { 0 => format!("{} {}", n, base64::encode(&b)), 1 => format!("\t{}  {} {} x\n", n, base64::encode(&b), g.word()), 2 => n, _ => format!("{} {} {}", n, base64::encode(&b), g.word()) };
            if g.one_in(8) {
                t = mutate_text(g, &t);
            }
            c.case("PublicKey::from_string", || t.clone(), || match (PublicKey::from_string(&t), pk_text(&t)) {
                (Ok(k), Some((p, cm))) => pk_checks(&k, &p, &cm).map(|_| true),
                (Err(_), None) => Ok(false),
                (Ok(k), None) => Err(format!("malformed key text accepted as {:?}", k)),
                (Err(e), Some(_)) => Err(format!("well-formed key text refused: {}", e)),
            });
        }
    }
}

fn name_case(n: &str) -> V {
    match (KeyType::from_name(n), kt(n)) {
        (Ok(k), Some(s)) => {
            same_kt(&k, n)?;
            let c = NAMES.iter().find(|x| x.cert && x.plain == s.plain).unwrap();
            want!(k.as_cert_name() == c.name, "certificate name of {} is {}", n, k.as_cert_name());
            want!(k.as_pubkey_name() == s.plain, "plain name of {} is {}", n, k.as_pubkey_name());
            Ok(true)
        }
        (Err(_), None) => Ok(false),
        (a, _) => Err(format!("key type lookup of {:?} gives {:?}", n, a.map(|x| x.name))),
    }
}

fn curve_case(n: &str) -> V {
    match (Curve::from_identifier(n), CURVES.contains(&n)) {
        (Ok(c), true) => same_curve(&c, n).map(|_| true),
        (Err(_), false) => Ok(false),
        (a, _) => Err(format!("curve lookup of {:?} gives {:?}", n, a.map(|x| x.identifier))),
    }
}

pub fn names(c: &mut Ctx) {
    let mut all: Vec<String> = NAMES.iter().map(|k| k.name.to_string()).chain(CURVES.iter().map(|x| x.to_string())).collect();
    let mut extra = vec![];
    for n in &all {
        for i in 0..=n.len() {
            extra.push(n[..i].to_string());
            extra.push(n[i..].to_string());
        }
        extra.push(n.to_uppercase());
        extra.push(format!("{} ", n));
        extra.push(format!(" {}", n));
        extra.push(format!("{}\0", n));
        for m in NAMES {
            extra.push(format!("{}{}", n, m.name));
        }
        for s in ["-cert-v01@openssh.com", "-cert-v00@openssh.com", "@openssh.com", "sk-"] {
            extra.push(format!("{}{}", n, s));
            extra.push(format!("{}{}", s, n));
            extra.push(n.replace(s, ""));
        }
    }
    for s in ["ssh-dss", "ssh-ed448", "ssh-dss-cert-v01@openssh.com", "rsa-sha2-384", "rsa-sha2-256-cert-v01@openssh.com", "rsa-sha2-512-cert-v01@openssh.com", "ecdsa-sha2-nistp224", "sk-ecdsa-sha2-nistp384@openssh.com", "nistp192", "curve25519", "webauthn-sk-ecdsa-sha2-nistp256@openssh.com"] {
        extra.push(s.into());
    }
    all.extend(extra);
    for n in all.clone() {
        c.case("KeyType::from_name", || n.clone(), || name_case(&n));
        c.case("Curve::from_identifier", || n.clone(), || curve_case(&n));
    }
    let mut i = 0;
    while c.more() && i < 200_000 {
        i += 1;
        let g = &mut c.rng;
        let i = g.below(all.len());
        let n = mutate_text(g, &all[i]);
        c.case("KeyType::from_name", || n.clone(), || name_case(&n));
        c.case("Curve::from_identifier", || n.clone(), || curve_case(&n));
    }
}

// ---------------------------------------------------------------- C12, C13, C14

fn rsa_mod(d: &[u8], p: &[u8]) -> Vec<u8> {
    use num_bigint::BigUint;
    (BigUint::from_bytes_be(d) % (BigUint::from_bytes_be(p) - 1u8)).to_bytes_be()
}

fn same_priv(a: &PrivateKey, k: &Priv) -> Result<(), String> {
    same_kt(&a.key_type, &k.pk.name)?;
    same_pk(&a.pubkey, &k.pk)?;
    want!(a.pubkey.comment.is_none() && a.comment == k.comment && a.magic == k.check, "comment {:?} check {}, specified {:?} {}", a.comment, a.magic, k.comment, k.check);
    let ok = match (&a.kind, &k.sec, &k.pk.body) {
        (PrivateKeyKind::Rsa(r), Sec::Rsa { d, iqmp, p, q }, Body::Rsa { e, n }) => &r.n == n && &r.e == e && &r.d == d && &r.coefficient == iqmp && &r.p == p && &r.q == q
            && r.exp == Some(rsa_mod(d, p)) && r.exq == Some(rsa_mod(d, q)),
        (PrivateKeyKind::Ecdsa(x), Sec::Plain(s), Body::Ec { curve, .. }) => { same_curve(&x.curve, curve)?; &x.key == s }
        (PrivateKeyKind::Ed25519(x), Sec::Plain(s), Body::Ed { .. }) => &x.key == s,
        (PrivateKeyKind::EcdsaSk(x), Sec::Sk { flags, handle, reserved }, Body::Ec { .. }) => x.flags == *flags && &x.handle == handle && &x.reserved == reserved && x.pin.is_none() && x.device_path.is_none(),
        (PrivateKeyKind::Ed25519Sk(x), Sec::Sk { flags, handle, reserved }, Body::Ed { .. }) => x.flags == *flags && &x.handle == handle && &x.reserved == reserved && x.pin.is_none() && x.device_path.is_none(),
        _ => false,
    };
    want!(ok, "secret components {:?}, specified {:?}", a.kind, k.sec);
    Ok(())
}

fn load(k: &Priv) -> Result<PrivateKey, String> {
    PrivateKey::from_string(&wrap("OPENSSH PRIVATE KEY", &priv_container(k), 70)).map_err(|e| format!("well-formed key not loaded: {}", e))
}

fn any_priv(g: &mut Rng, keys: &[Key]) -> Priv {
    if g.one_in(2) {
        if let Some(p) = g.pick(keys).private(g) {
            return p;
        }
    }
    loop {
        let pk = any_pk(g, keys, true);
        let k = kt(&pk.name).unwrap();
        if k.kind().1 {
            continue;
        }
        let trim = |v: Vec<u8>| v.into_iter().skip_while(|x| *x == 0).collect::<Vec<u8>>();
        let prime = |g: &mut Rng| { let mut v = trim(g.blob()); if v.is_empty() || v == [1] { v = vec![7] } v };
        let sec = match (&pk.body, k.sk) {
            (Body::Rsa { .. }, _) => Sec::Rsa { d: trim(g.blob()), iqmp: trim(g.blob()), p: prime(g), q: prime(g) },
            (_, true) => Sec::Sk { flags: g.byte(), handle: g.blob(), reserved: g.blob() },
            _ => Sec::Plain(g.blob()),
        };
        return Priv { pk, sec, comment: g.text(), check: g.num64() as u32 };
    }
}

pub fn private_load(c: &mut Ctx, keys: &[Key]) {
    while c.more() {
        let g = &mut c.rng;
        let k = any_priv(g, keys);
        let mut sec = priv_section(&k);
        let mut outer = pk_wire(&k.pk);
        let (mut cipher, mut kdf, mut opts, mut count, mut magic) = ("none".to_string(), "none".to_string(), vec![], 1u32, b"openssh-key-v1\0".to_vec());
        let mut pass = if g.one_in(4) { Some(g.word()) } else { None };
        match g.below(18) {
            0 => sec = mutate(g, &sec),
            1 => { let i = g.below(8); sec[i] ^= 1 << g.below(8) }
            2 => outer = pk_wire(&any_pk(g, keys, true)),
            3 => outer = mutate(g, &outer),
            4 => count = *g.pick(&[0, 2, 0x01000000, 0xffffffff]),
            5 => cipher = g.pick(&["aes256-cbc", "aes128-ctr", "", "None", "aes256-ctr", "aes256-gcm@openssh.com"]).to_string(),
            6 => kdf = g.pick(&["bcrypt", "", "None", "scrypt"]).to_string(),
            7 => magic = g.pick(&[b"openssh-key-v2\0".to_vec(), b"openssh-key-v1".to_vec(), b"openssh-key-v1 \0".to_vec(), b"\0".to_vec(), b"Openssh-key-v1\0".to_vec()]).clone(),
            8 | 9 => {
                cipher = "aes256-ctr".into();
                kdf = "bcrypt".into();
                let p = if g.one_in(3) { g.text() } else { g.word() };
                let salt = if g.one_in(5) { g.blob() } else { g.bytes(16) };
                let rounds = if g.one_in(8) { 0 } else { 1 + g.below(2) as u32 };
                opts = [eb(&salt), e32(rounds)].concat();
                let done = crypt(&p, &salt, rounds, &mut sec).is_some();
                pass = match g.below(6) { 0 => None, 1 => Some(g.word()), 2 => Some(match g.below(5) { 0 => p + "\n", 1 => p + " ", 2 => p.trim().to_string(), 3 => p.to_uppercase(), _ => format!(" {}", p) }), _ => Some(p) };
                if done && g.one_in(8) {
                    opts = mutate(g, &opts);
                    if opts.len() >= 4 { let n = opts.len(); opts[n - 4..].copy_from_slice(&e32(1)) }
                }
                if g.one_in(8) { cipher = "aes256-cbc".into() }
            }
            10 => { let mut o = k.clone(); if let Body::Ed { key, .. } | Body::Ec { key, .. } = &mut o.pk.body { key.push(1) } sec = priv_section(&o) }
            11 => { let mut o = k.clone(); if let Body::Rsa { e, .. } = &mut o.pk.body { e.insert(0, 3) } else { o.pk = any_priv(g, keys).pk; o = Priv { pk: any_pk(g, keys, false), ..any_priv(g, keys) }; let _ = &o; o = any_priv(g, keys) } sec = priv_section(&o) }
            12 => opts = g.blob(),
            _ => (),
        }
        let mut b = [magic, es(&cipher), es(&kdf), eb(&opts), e32(count), eb(&outer), eb(&sec)].concat();
        if g.one_in(12) {
            b = mutate(g, &b);
        }
        // keep the work factor small
        if let Load::Bad = guarded_rounds(&b) { continue }
        let wd = *g.pick(&[70, 64, 1000]);
        let mut t = wrap("OPENSSH PRIVATE KEY", &b, wd);
        match g.below(14) {
            0 => t = mutate_text(g, &t),
            1 => t = t.replace('\n', "\r\n"),
            2 => t = t.trim_end().to_string(),
            3 => t.push_str("trailing\n"),
            4 => t = t.replace("END OPENSSH", *g.pick(&["END  OPENSSH", "END RSA"])),
            5 => t = t.replace("BEGIN OPENSSH", *g.pick(&["begin OPENSSH", "BEGIN RSA"])),
            _ => (),
        }
        if let Some(b) = armor(&t, "OPENSSH PRIVATE KEY") { if let Load::Bad = guarded_rounds(&b) { continue } }
        c.case("PrivateKey::from_string_with_passphrase", || format!("passphrase {:?} text {}", pass, t), || {
            let got = PrivateKey::from_string_with_passphrase(&t, pass.clone());
            let spec = match armor(&t, "OPENSSH PRIVATE KEY") { Some(b) => private(&b, pass.as_deref()), None => Load::Bad };
            match (got, spec) {
                (Ok(a), Load::Key(k)) => same_priv(&a, &k).map(|_| true),
                (Err(sshcerts::error::Error::EncryptedPrivateKey), Load::Encrypted) => Ok(false),
                (Err(_), Load::Unsupported) | (Err(_), Load::Bad) => Ok(false),
                (Ok(_), _) => Err("a private key was loaded from an inconsistent or unsupported container".into()),
                (Err(e), Load::Key(_)) => Err(format!("consistent private key refused: {}", e)),
                (Err(e), Load::Encrypted) => Err(format!("encrypted key without passphrase gives {} instead of the encrypted-key error", e)),
            }
        });
    }
}

/// Bad when the key derivation would run for more than a few rounds
fn guarded_rounds(b: &[u8]) -> Load {
    let mut r = Rd::new(b);
    let f = |r: &mut Rd<'_>| -> R<u32> {
        r.cstring()?;
        r.string()?;
        if r.string()? != "bcrypt" {
            return Ok(0);
        }
        let o = r.bytes()?;
        let mut o = Rd::new(&o);
        o.bytes()?;
        o.u32()
    };
    match f(&mut r) { Ok(n) if n > 4 => Load::Bad, _ => Load::Unsupported }
}

pub fn private_write(c: &mut Ctx, keys: &[Key]) {
    let mut i = 0;
    while c.more() {
        i += 1;
        if i % 10 == 0 {
            let cm = c.rng.text();
            c.case("PrivateKey::new", || cm.clone(), || {
                let k = PrivateKey::new(KeyTypeKind::Ed25519, &cm).map_err(|e| e.to_string())?;
                want!(k.comment == cm && k.key_type.name == "ssh-ed25519", "generated {:?}", k.key_type);
                if let (PrivateKeyKind::Ed25519(s), PublicKeyKind::Ed25519(p)) = (&k.kind, &k.pubkey.kind) {
                    want!(s.key.len() == 64 && s.key[32..] == p.key[..], "generated key is not seed followed by public key");
                    want!(ring::signature::Ed25519KeyPair::from_seed_and_public_key(&s.key[..32], &p.key).is_ok(), "seed and public key do not belong together");
                } else {
                    return Err("not Ed25519".into());
                }
                let mut t = vec![];
                k.write(&mut t).map_err(|e| e.to_string())?;
                let b = PrivateKey::from_string(std::str::from_utf8(&t).unwrap()).map_err(|e| format!("written generated key does not load: {}", e))?;
                want!(b == k, "generated key changes on reload");
                Ok(true)
            });
            continue;
        }
        let k = any_priv(&mut c.rng, keys);
        c.case("PrivateKey::encode", || format!("{:?}", k), || {
            let l = load(&k)?;
            same_priv(&l, &k)?;
            let w = priv_container(&k);
            want!(l.encode() == w, "encode gives {} specified {}", hex(&l.encode()), hex(&w));
            let mut t = vec![];
            l.write(&mut t).map_err(|e| e.to_string())?;
            let t = String::from_utf8(t).map_err(|e| e.to_string())?;
            want!(armor(&t, "OPENSSH PRIVATE KEY") == Some(w), "written text {}", t);
            let b = PrivateKey::from_string(&t).map_err(|e| format!("written key does not load: {}", e))?;
            want!(b == l, "key changes on reload");
            Ok(true)
        });
    }
}

pub fn private_sign(c: &mut Ctx, keys: &[Key]) {
    while c.more() {
        let g = &mut c.rng;
        let m = g.blob();
        let mut k = any_priv(g, keys);
        if matches!(k.sec, Sec::Sk { .. }) {
            continue;
        }
        let genuine = keys.iter().any(|x| x.pk == k.pk) && match &k.sec { Sec::Plain(s) => keys.iter().any(|x| x.pk == k.pk && match &x.sec { Secret::Ed(_, d) => s.len() == 64 && s.starts_with(d), Secret::Ec(_, d) => s.len() <= d.len() + 1 && s.iter().skip_while(|x| **x == 0).eq(d.iter().skip_while(|x| **x == 0)), _ => false }), Sec::Rsa { d, .. } => keys.iter().any(|x| matches!(&x.sec, Secret::Rsa { d: e, .. } if e.to_bytes_be() == *d)), _ => false };
        let mut ok = genuine;
        if g.one_in(3) {
            ok = false;
            match &mut k.sec {
                Sec::Plain(s) => match g.below(5) { 0 => s.clear(), 1 => { let n = g.below(s.len() + 1); s.truncate(n) } 2 => s.insert(0, 0), 3 => s.push(9), _ => *s = vec![0; 1 + g.below(70)] },
                Sec::Rsa { d, p, .. } => if g.one_in(2) { d.clear() } else { *p = vec![3] },
                _ => (),
            }
        }
        c.case("PrivateKey::sign", || format!("{:?} message {}", k, hex(&m)), || {
            let l = load(&k)?;
            match l.sign(&m) {
                None => { want!(!ok, "a genuine key signs nothing"); Ok(false) }
                Some(s) => {
                    let mut r = Rd::new(&s);
                    let n = r.string().map_err(|_| "malformed signature blob")?;
                    let w = if kt(&k.pk.name).unwrap().fam == Fam::Rsa { "rsa-sha2-512" } else { &k.pk.name };
                    want!(n == w, "signature names {} for a {} key", n, k.pk.name);
                    if ok {
                        want!(verify(&s, &m, &k.pk), "signature {} does not verify", hex(&s));
                    }
                    Ok(true)
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C15

pub fn wiped(c: &mut Ctx) {
    use crate::alloc;
    let mark = |i: u8, n: usize| -> Vec<u8> { (0..n).map(|j| 0xA1u8.wrapping_add(i.wrapping_mul(31)).wrapping_add((j as u8).wrapping_mul(7)) | 1).collect() };
    let text = |i: u8, n: usize| -> String { (0..n).map(|j| (b'a' + ((i as usize * 5 + j * 3) % 26) as u8) as char).collect() };
    let pk = mk_pk(&Pk { name: "ssh-ed25519".into(), body: Body::Ed { key: vec![0; 32], app: None } });
    let mut i = 0;
    while c.more() && i < 20_000 {
        i += 1;
        let g = &mut c.rng;
        let which = g.below(5);
        let n = 16 + g.below(300);
        let cap = g.below(3) * 40;
        let opt = g.below(4);
        c.case("drop(PrivateKey)", || format!("kind {} component length {} spare capacity {} optional fields {}", which, n, cap, opt), || {
            let mut secrets: Vec<Vec<u8>> = vec![];
            let mut v = |i: u8| { let m = mark(i, n); secrets.push(m.clone()); let mut o = Vec::with_capacity(n + cap); o.extend(m); o };
            let kind = match which {
                0 => PrivateKeyKind::Rsa(RsaPrivateKey { n: vec![3; 40], e: vec![1], d: v(1), coefficient: v(2), p: v(3), q: v(4), exp: if opt & 1 == 0 { Some(v(5)) } else { None }, exq: if opt & 2 == 0 { Some(v(6)) } else { None } }),
                1 => PrivateKeyKind::Ecdsa(EcdsaPrivateKey { curve: Curve::from_identifier("nistp256").unwrap(), key: v(1) }),
                2 => PrivateKeyKind::Ed25519(Ed25519PrivateKey { key: v(1) }),
                x => {
                    let (h, r) = (v(1), v(2));
                    let pin = if opt & 1 == 0 { Some(text(3, n)) } else { None };
                    let dev = if opt & 2 == 0 { Some(text(4, n)) } else { None };
                    for s in [&pin, &dev].into_iter().flatten() {
                        secrets.push(s.clone().into_bytes());
                    }
                    if x == 3 { PrivateKeyKind::EcdsaSk(EcdsaSkPrivateKey { flags: 1, handle: h, reserved: r, pin, device_path: dev }) } else { PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey { flags: 1, handle: h, reserved: r, pin, device_path: dev }) }
                }
            };
            let key = PrivateKey { key_type: pk.key_type.clone(), kind, pubkey: pk.clone(), magic: 1, comment: "c".into() };
            let needles: Vec<Vec<u8>> = secrets.iter().map(|s| s[..12].to_vec()).collect();
            let found = alloc::watch(&needles, move || drop(key));
            want!(found.is_none(), "secret component {} still in memory that is being released", found.unwrap());
            Ok(true)
        });
    }
}

// ---------------------------------------------------------------- C16

fn same_signer(a: &AllowedSigner, s: &signers::Signer) -> Result<(), String> {
    want!(a.principals == s.principals && a.cert_authority == s.ca && a.namespaces == s.ns && a.valid_after == s.after && a.valid_before == s.before, "parsed {:?}, specified {:?}", a, s);
    same_pk(&a.key, &s.key)
}

pub fn allowed(c: &mut Ctx, keys: &[Key]) {
    while c.more() {
        let g = &mut c.rng;
        let tz = std::env::var("TZ").unwrap_or_default();
        if g.one_in(4) {
            let mut t = String::new();
            for _ in 0..g.below(6) {
                let again: Vec<String> = t.lines().map(|x| x.to_string()).collect();
                t += &match g.below(7) { 6 if !again.is_empty() => g.pick(&again).clone(), 0 => String::new(), 1 => "# comment".into(), 2 => "   # indented".into(), 3 => "\t".into(), _ => format!("{}{}", if g.one_in(4) { "  " } else { "" }, signers::gen(g, keys)) };
                t += if g.one_in(6) { "\r\n" } else { "\n" };
            }
            c.case("AllowedSigners::from_string", || format!("TZ={} {:?}", tz, t), || match (AllowedSigners::from_string(&t), signers::file(&t)) {
                (Ok(a), Ok(s)) => {
                    want!(a.0.len() == s.len(), "{} entries, specified {}", a.0.len(), s.len());
                    for (x, y) in a.0.iter().zip(&s) {
                        same_signer(x, y)?;
                    }
                    Ok(!s.is_empty())
                }
                (Err(sshcerts::error::Error::InvalidAllowedSigners(_, n)), Err(l)) => { want!(n == l, "error names line {}, specified {}", n, l); Ok(false) }
                (Err(e), Err(l)) => Err(format!("error {} does not name line {}", e, l)),
                (Ok(a), Err(l)) => Err(format!("accepted {:?} although line {} is malformed", a, l)),
                (Err(e), Ok(_)) => Err(format!("well-formed file refused: {}", e)),
            });
        } else {
            let l = signers::gen(g, keys);
            c.case("AllowedSigner::from_string", || format!("TZ={} {:?}", tz, l), || match (AllowedSigner::from_string(&l), signers::line(&l)) {
                (Ok(a), Some(s)) => same_signer(&a, &s).map(|_| true),
                (Err(_), None) => Ok(false),
                (Ok(a), None) => Err(format!("malformed line accepted as {:?}", a)),
                (Err(e), Some(s)) => Err(format!("well-formed line refused: {} (specified {:?})", e, s)),
            });
        }
    }
}

// ---------------------------------------------------------------- C17 .. C20

pub fn fido_parse(c: &mut Ctx) {
    while c.more() {
        let g = &mut c.rng;
        let b = x::gen_auth(g);
        let app = g.text();
        c.case("AuthData::parse", || format!("{} application {:?}", hex(&b), app), || {
            let a = match (sshcerts::fido::AuthData::parse(&b), x::auth_data(&b)) {
                (Err(_), None) => return Ok(false),
                (Ok(_), None) => return Err("malformed authenticator data accepted".into()),
                (Err(e), Some(_)) => return Err(format!("well-formed authenticator data refused: {}", e)),
                (Ok(a), Some(s)) => {
                    let params: Vec<String> = a.cose_key.parameters.get(&-1).cloned().into_iter().collect();
                    want!(a.rpid_hash == s.rpid && a.flags == s.flags && a.sign_count == s.count && a.aaguid == s.aaguid && a.credential_id == s.cred, "parsed {:?}, specified {:?}", a, s);
                    want!(a.cose_key.key_type == s.kty && a.cose_key.algorithm == s.alg && a.cose_key.key == s.key && params == s.params && a.cose_key.parameters.len() == params.len(), "COSE key {:?}, specified {:?}", a.cose_key, s);
                    want!(a.user_presence() == (s.flags & 1 == 1) && a.user_verification() == (s.flags & 4 == 4), "presence and verification flags");
                    a
                }
            };
            let w = match a.cose_key.algorithm {
                -7 => Some(Pk { name: "sk-ecdsa-sha2-nistp256@openssh.com".into(), body: Body::Ec { curve: "nistp256".into(), key: a.cose_key.key.clone(), app: Some(app.clone()) } }),
                -8 => Some(Pk { name: "sk-ssh-ed25519@openssh.com".into(), body: Body::Ed { key: a.cose_key.key.clone(), app: Some(app.clone()) } }),
                _ => None,
            };
            match (a.ssh_public_key(&app), w) {
                (Ok(k), Some(p)) => same_pk(&k, &p)?,
                (Err(_), None) => (),
                (k, _) => return Err(format!("exported key {:?}", k.is_ok())),
            }
            Ok(true)
        });
    }
}

fn ec256(keys: &[Key]) -> Vec<&Key> {
    keys.iter().filter(|k| k.pk.name == "ecdsa-sha2-nistp256").collect()
}

pub fn fido_verify(c: &mut Ctx, keys: &[Key]) {
    use sshcerts::fido::verification::{verify_auth_data, Transport};
    let issuers: Vec<&Key> = keys.iter().filter(|k| matches!(&k.pk.body, Body::Rsa { .. } | Body::Ec { app: None, .. }) || k.pk.name == "ssh-ed25519").collect();
    while c.more() {
        let g = &mut c.rng;
        let root = *g.pick(&issuers);
        let other = *g.pick(&issuers);
        let leafs = ec256(keys);
        let leaf = *g.pick(&leafs);
        let a = x::gen_auth(g);
        let ch = g.blob();
        // extensions
        let mut exts: Vec<(String, Vec<u8>)> = vec![];
        let (mut fw, mut id, mut tr) = (None, None, None);
        let mut bad = false;
        let mut order: Vec<usize> = (0..4).collect();
        for i in (1..4).rev() { let j = g.below(i + 1); order.swap(i, j); }
        // an extension may come twice: the last one that is well formed counts
        while g.one_in(4) { let o = g.below(4); order.push(o); }
        for o in order {
            if g.one_in(4) { continue }
            match o {
                0 => { let n = if g.one_in(4) { g.below(5) } else { 3 }; let s = g.bytes(n); if n == 3 { fw = Some(format!("{}.{}.{}", s[0], s[1], s[2])) } exts.push(("1.3.6.1.4.1.41482.13.1".into(), x::tlv(4, &s))) }
                1 => { let n = if g.one_in(4) { g.below(20) } else { 16 }; let s = g.bytes(n); if n == 16 { id = Some(s.clone()) } exts.push(("1.3.6.1.4.1.45724.1.1.4".into(), x::tlv(4, &s))) }
                2 => {
                    let s = if g.one_in(5) { g.bytes(2) } else { vec![g.byte() & 0xf8] };
                    let unused = if s.len() == 1 { 3u8 } else { 0 };
                    tr = Some((0..5usize).filter(|i| s[0] & (0x80 >> i) != 0).collect::<Vec<_>>());
                    exts.push(("1.3.6.1.4.1.45724.2.1.1".into(), x::tlv(3, &[vec![unused], s].concat())))
                }
                _ => exts.push(("1.2.3.4".into(), g.blob())),
            }
        }
        if g.one_in(20) && !exts.is_empty() {
            let i = g.below(exts.len());
            if exts[i].0 != "1.2.3.4" { exts[i].1 = vec![5, 0]; bad = true }
        }
        let how = g.below(16);
        let spki = x::spki(&leaf.pk);
        let int = x::x509(g, if how == 0 { other } else { root }, &spki, &exts);
        let rootc = x::x509(g, root, &x::spki(&root.pk), &[]);
        let signed = [a.clone(), ch.clone()].concat();
        let signer = if how == 1 { *g.pick(&leafs) } else { leaf };
        let mut sig = x::ecdsa_der(&signer.raw(&signed, ""));
        let (mut va, mut vch, mut alg, mut vint) = (a.clone(), ch.clone(), -7, int.clone());
        let mut pem = Some(x::pem(&rootc));
        let mut expect = x::auth_data(&a).is_some() && !bad;
        match how {
            0 => expect &= std::ptr::eq(other, root),
            1 => expect &= std::ptr::eq(signer, leaf),
            2 => { va = mutate(g, &a); expect &= va == a }
            3 => { vch = mutate(g, &ch); expect &= [va.clone(), vch.clone()].concat() == signed && va == a }
            4 => { alg = *g.pick(&[-8, 7, 0, -257, i32::MIN]); expect = false }
            5 => { sig = mutate(g, &sig); expect = verify_der(&leaf.pk, &signed, &sig) && expect }
            6 => { let i = g.below(vint.len()); vint[i] ^= 1 << g.below(8); expect = false; if tbs_range(&vint) != tbs_range(&int) || !in_tbs_or_sig(&int, i) { continue } }
            7 => { pem = None; expect = false }
            8 => { pem = Some(g.text()); expect = false }
            9 => { pem = Some(x::pem(&g.blob())); expect = false }
            // self-signed
            10 => { vint = x::x509(g, leaf, &spki, &exts); expect &= std::ptr::eq(leaf, root) }
            _ => (),
        }
        c.case("fido::verification::verify_auth_data", || format!("auth_data {} signature {} challenge {} alg {} intermediate {} root {:?}", hex(&va), hex(&sig), hex(&vch), alg, hex(&vint), pem), || {
            let got = verify_auth_data(&va, &sig, &vch, alg, &vint, pem.as_deref());
            match got {
                Err(e) => { want!(!expect, "valid attestation refused: {}", e); Ok(false) }
                Ok(v) => {
                    want!(expect, "attestation accepted that must be refused (variant {})", how);
                    let s = x::auth_data(&va).unwrap();
                    want!(v.auth_data.rpid_hash == s.rpid && v.auth_data.flags == s.flags && v.auth_data.sign_count == s.count && v.auth_data.credential_id == s.cred && v.auth_data.cose_key.key == s.key && v.auth_data.aaguid == s.aaguid, "authenticator data {:?}", v.auth_data);
                    let t = v.transports.as_ref().map(|t| t.iter().map(|x| match x { Transport::Bluetooth => 0, Transport::BluetoothLE => 1, Transport::USB => 2, Transport::NFC => 3, Transport::USBInternal => 4 }).collect::<Vec<usize>>());
                    want!(v.firmware == fw && v.aaguid == id && t == tr, "extensions {:?} {:?} {:?}, specified {:?} {:?} {:?}", v.firmware, v.aaguid, t, fw, id, tr);
                    Ok(true)
                }
            }
        });
    }
}

fn verify_der(p: &Pk, m: &[u8], sig: &[u8]) -> bool {
    match &p.body { Body::Ec { key, .. } => ring::signature::UnparsedPublicKey::new(&ring::signature::ECDSA_P256_SHA256_ASN1, key).verify(m, sig).is_ok(), _ => false }
}

/// end of the to-be-signed part of a certificate
fn tbs_range(c: &[u8]) -> usize {
    if c.len() > 8 && c[1] == 0x82 && c[5] == 0x82 { 8 + c[6] as usize * 256 + c[7] as usize } else { 0 }
}
/// byte i is covered by the signature, or in its last 20 bytes
fn in_tbs_or_sig(c: &[u8], i: usize) -> bool {
    let e = tbs_range(c);
    e > 0 && (i >= 8 && i < e || i >= c.len() - 20)
}

pub fn piv(c: &mut Ctx, keys: &[Key]) {
    use sshcerts::yubikey::verification::verify_certificate_chain;
    let issuers: Vec<&Key> = keys.iter().filter(|k| matches!(&k.pk.body, Body::Rsa { .. } | Body::Ec { app: None, .. }) || k.pk.name == "ssh-ed25519").collect();
    while c.more() {
        let g = &mut c.rng;
        let (root, inter, other) = (*g.pick(&issuers), *g.pick(&issuers), *g.pick(&issuers));
        let client = if g.one_in(8) { *g.pick(&issuers) } else { loop { let k = *g.pick(&issuers); if matches!(k.pk.body, Body::Ec { .. }) { break k } } };
        let mut exts: Vec<(String, Vec<u8>)> = vec![];
        let (mut fw, mut serial, mut pol) = (None, None, None);
        let mut order: Vec<usize> = (0..4).collect();
        for i in (1..4).rev() { let j = g.below(i + 1); order.swap(i, j); }
        // an extension may come twice: the last one that is well formed counts
        while g.one_in(4) { let o = g.below(4); order.push(o); }
        for o in order {
            if g.one_in(15) { continue }
            match o {
                0 => { let n = if g.one_in(10) { g.below(6) } else { 3 }; let s = g.bytes(n); if n == 3 { fw = Some(format!("{}.{}.{}", s[0], s[1], s[2])) } exts.push(("1.3.6.1.4.1.41482.3.3".into(), s)) }
                1 => {
                    let v = g.num64();
                    let d = if g.one_in(8) { let mut b = g.bytes(9); b[0] = 1 + b[0] % 254; x::tlv(2, &b) } else { x::uint(&v.to_be_bytes()) };
                    // nine bytes of content do not fit and are passed over
                    let n = d[1] as usize;
                    if n <= 8 { let mut w = 0u64; for b in &d[2..] { w = w << 8 | *b as u64 } serial = Some(w) }
                    exts.push(("1.3.6.1.4.1.41482.3.7".into(), d))
                }
                2 => { let n = if g.one_in(8) { g.below(5) } else { 2 }; let s = g.bytes(n); if n >= 2 { pol = Some((s[0], s[1])) } exts.push(("1.3.6.1.4.1.41482.3.8".into(), s)) }
                _ => exts.push(("1.2.3.4".into(), g.blob())),
            }
        }
        let mut expect = fw.is_some() && serial.is_some() && pol.is_some() && matches!(client.pk.body, Body::Ec { .. });
        let how = g.below(16);
        let cspki = x::spki(&client.pk);
        let ispki = x::spki(&inter.pk);
        let mut cc = x::x509(g, if how == 0 { other } else { inter }, &cspki, &exts);
        let mut ic = x::x509(g, if how == 1 { other } else { root }, &ispki, &[("1.2.3.4".into(), vec![1])]);
        let rootc = x::x509(g, root, &x::spki(&root.pk), &[]);
        let mut pem = Some(x::pem(&rootc));
        match how {
            0 => expect &= std::ptr::eq(other, inter),
            1 => expect &= std::ptr::eq(other, root),
            2 => { let i = g.below(cc.len()); if !in_tbs_or_sig(&cc, i) { continue } cc[i] ^= 1 << g.below(8); expect = false }
            3 => { let i = g.below(ic.len()); if !in_tbs_or_sig(&ic, i) { continue } ic[i] ^= 1 << g.below(8); expect = false }
            4 => { pem = None; expect = false }
            5 => { pem = Some(g.text()); expect = false }
            6 => { pem = Some(x::pem(&x::x509(g, other, &x::spki(&other.pk), &[]))); expect &= std::ptr::eq(other, root) }
            // self-signed
            7 => { cc = x::x509(g, client, &cspki, &exts); expect &= std::ptr::eq(client, inter) }
            8 => { ic = x::x509(g, inter, &ispki, &[]); expect &= std::ptr::eq(inter, root) }
            9 => { cc = x::x509(g, root, &cspki, &exts); expect &= std::ptr::eq(root, inter) }
            _ => (),
        }
        c.case("yubikey::verification::verify_certificate_chain", || format!("client {} intermediate {} root {:?}", hex(&cc), hex(&ic), pem), || {
            match verify_certificate_chain(&cc, &ic, pem.as_deref()) {
                Err(e) => { want!(!expect, "valid attestation refused: {}", e); Ok(false) }
                Ok(v) => {
                    want!(expect, "attestation accepted that must be refused (variant {})", how);
                    same_pk(&v.public_key, &client.pk)?;
                    want!(Some(&v.firmware) == fw.as_ref() && Some(v.serial) == serial && Some((v.pin_policy, v.touch_policy)) == pol, "result {:?}, specified {:?} {:?} {:?}", v, fw, serial, pol);
                    Ok(true)
                }
            }
        });
    }
}

pub fn import(c: &mut Ctx, keys: &[Key]) {
    use sshcerts::x509::*;
    let ks: Vec<&Key> = keys.iter().filter(|k| matches!(&k.pk.body, Body::Rsa { .. } | Body::Ec { app: None, .. }) || k.pk.name == "ssh-ed25519").collect();
    while c.more() {
        let g = &mut c.rng;
        let k = *g.pick(&ks);
        let iss = *g.pick(&ks);
        let data = match &k.pk.body { Body::Ec { key, .. } => if g.one_in(4) { g.blob() } else { key.clone() }, _ => g.blob() };
        let (alg, par) = match g.below(10) {
            0 => ("1.2.840.113549.1.1.1", vec![5, 0]),
            1 => (x::ECPK, x::oid(*g.pick(&["1.3.132.0.35", "1.3.132.0.10", "1.2.840.10045.3.1.1", "1.3.132.0.3", "1.3.132.0.34.1", "1.2.840.10045.3.1.71"]))),
            2 => (x::ECPK, g.pick(&[vec![5, 0], vec![], vec![2, 1, 1], x::seq(&[x::oid(x::P256)])]).clone()),
            3 => (*g.pick(&["1.3.101.112", "1.2.840.10045.2.2", "1.2.840.10045.2.1.1", "1.3.132.1.12"]), x::oid(x::P256)),
            4 | 5 | 6 => (x::ECPK, x::oid(x::P384)),
            _ => (x::ECPK, x::oid(x::P256)),
        };
        let spki = x::seq(&[x::seq(&[x::oid(alg), par.clone()]), x::bits(&data)]);
        let want_ = if alg == x::ECPK && (par == x::oid(x::P256) || par == x::oid(x::P384)) {
            let n = if par == x::oid(x::P256) { "256" } else { "384" };
            Some(Pk { name: format!("ecdsa-sha2-nistp{}", n), body: Body::Ec { curve: format!("nistp{}", n), key: data.clone(), app: None } })
        } else {
            None
        };
        let form = g.below(3);
        let b = match form { 0 => x::x509(g, iss, &spki, &[]), 1 => x::csr(iss, &spki), _ => spki.clone() };
        let wreck = g.one_in(6);
        let b2 = if wreck { let n = g.below(b.len()); b[..n].to_vec() } else { b };
        // some malformed inputs aimed at the shapes the DER importer looks at
        let (b2, w2) = if form == 2 && g.one_in(8) {
            let v = g.pick(&[x::seq(&[]), x::seq(&[x::seq(&[x::oid(x::ECPK)]), x::bits(&data)]), x::seq(&[x::bits(&data), x::seq(&[x::oid(x::ECPK), x::oid(x::P256)])]), x::seq(&[x::seq(&[x::oid(x::ECPK), x::oid(x::P256), vec![5, 0]]), x::bits(&data)]), x::seq(&[x::seq(&[x::oid(x::ECPK), x::oid(x::P256)]), x::tlv(4, &data)]), x::seq(&[x::seq(&[x::oid(x::ECPK), x::oid(x::P256)]), x::bits(&data), vec![5, 0]])]).clone();
            (v, None)
        } else { (b2, if wreck { None } else { want_ }) };
        c.case(["extract_ssh_pubkey_from_x509_certificate", "extract_ssh_pubkey_from_x509_csr", "der_encoding_to_ssh_public_key"][form], || hex(&b2), || {
            let got = match form { 0 => extract_ssh_pubkey_from_x509_certificate(&b2), 1 => extract_ssh_pubkey_from_x509_csr(&b2), _ => der_encoding_to_ssh_public_key(&b2) };
            match (got, &w2) {
                (Ok(k), Some(p)) => { same_pk(&k, p)?; want!(k.comment.is_none(), "comment"); Ok(true) }
                (Err(_), None) => Ok(false),
                (Ok(k), None) => Err(format!("imported {:?} from something that is no P-256 or P-384 key", k)),
                (Err(e), Some(_)) => Err(format!("P-256 or P-384 key refused: {}", e)),
            }
        });
    }
}

// ---------------------------------------------------------------- C22

fn der_gen(g: &mut Rng) -> Vec<u8> {
    let r = { let n = *g.pick(&[0usize, 1, 20, 31, 32, 33, 48, 49, 66, 127, 128, 130]); g.bytes(n) };
    let s = { let n = *g.pick(&[0usize, 1, 20, 31, 32, 33, 48, 49, 66, 127, 128, 130]); g.bytes(n) };
    let mut b = [vec![0x30, (4 + r.len() + s.len()) as u8, 2, r.len() as u8], r, vec![2, s.len() as u8], s].concat();
    match g.below(8) {
        0 => b = mutate(g, &b),
        1 => { let n = g.below(b.len() + 1); b.truncate(n) }
        2 => b = g.blob(),
        3 => { let x = g.byte(); b.push(x) }
        4 => { let n = g.below(8); let mut v = vec![0x30, 6, 2, g.below(6) as u8, 2, 1, 2, 1]; v.truncate(n); b = v }
        _ => (),
    }
    b
}

pub fn der(c: &mut Ctx, keys: &[Key]) {
    use sshcerts::utils::*;
    while c.more() {
        let g = &mut c.rng;
        let b = der_gen(g);
        let p = any_pk(g, keys, true);
        c.case("utils::asn_der_to_r_s and SSH forms", || format!("{} key {}", hex(&b), hex(&pk_wire(&p))), || {
            let s = der_sig(&b);
            let got = asn_der_to_r_s(&b).map(|(x, y)| (x.to_vec(), y.to_vec()));
            want!(got == s, "r and s {:?}, specified {:?}", got, s);
            let w = s.as_ref().map(|(r, s)| [eb(r), eb(s)].concat());
            want!(signature_convert_asn1_ecdsa_to_ssh(&b) == w, "SSH form {:?}, specified {:?}", signature_convert_asn1_ecdsa_to_ssh(&b), w);
            let f = match &p.body {
                Body::Ec { .. } => w.as_ref().map(|w| [es(&p.name), eb(w)].concat()),
                Body::Rsa { .. } => Some([es("rsa-sha2-512"), eb(&b)].concat()),
                Body::Ed { .. } => Some([es(&p.name), eb(&b)].concat()),
            };
            want!(format_signature_for_ssh(&mk_pk(&p), &b) == f, "wrapped form {:?}, specified {:?}", format_signature_for_ssh(&mk_pk(&p), &b), f);
            Ok(s.is_some())
        });
    }
}

// ---------------------------------------------------------------- C21

pub fn no_panic(c: &mut Ctx, keys: &[Key], secs: u64) {
    let seed = c.rng.u64();
    let part = (secs / 14).max(1);
    for i in 0..14 {
        let mut d = Ctx::new(seed.wrapping_add(i), part);
        d.panics_only = true;
        match i {
            0 => certs(&mut d, keys, false),
            1 => sigs(&mut d, keys, false),
            2 => sig_texts(&mut d, keys),
            3 => reader(&mut d),
            4 => pubkeys(&mut d, keys),
            5 => private_load(&mut d, keys),
            6 => allowed(&mut d, keys),
            7 => fido_parse(&mut d),
            8 => fido_verify(&mut d, keys),
            9 => piv(&mut d, keys),
            10 => import(&mut d, keys),
            11 => der(&mut d, keys),
            12 => mutants(&mut d, keys),
            _ => names(&mut d),
        }
        c.absorb(d);
    }
}

/// heavier mutation of structured DER inputs; only panics count
fn mutants(c: &mut Ctx, keys: &[Key]) {
    let leaf = ec256(keys)[0];
    while c.more() {
        let g = &mut c.rng;
        let root = g.pick(keys);
        if matches!(&root.pk.body, Body::Ec { app: Some(_), .. } | Body::Ed { app: Some(_), .. }) { continue }
        let exts: Vec<(String, Vec<u8>)> = ["1.3.6.1.4.1.41482.3.3", "1.3.6.1.4.1.41482.3.7", "1.3.6.1.4.1.41482.3.8", "1.3.6.1.4.1.41482.13.1", "1.3.6.1.4.1.45724.1.1.4", "1.3.6.1.4.1.45724.2.1.1"].iter()
            .map(|o| (o.to_string(), match g.below(6) { 0 => x::tlv(2, &g.blob()), 1 => x::tlv(3, &g.blob()), 2 => x::tlv(4, &g.blob()), 3 => g.blob(), 4 => { let n = g.below(4); g.bytes(n) } _ => x::uint(&g.bytes(8)) })).collect();
        let cert_ = x::x509(g, root, &x::spki(&leaf.pk), &exts);
        let pem = x::pem(&x::x509(g, root, &x::spki(&root.pk), &[]));
        let ch = g.blob();
        let a = x::gen_auth(g);
        let sig = x::ecdsa_der(&leaf.raw(&[a.clone(), ch.clone()].concat(), ""));
        let int = x::x509(g, root, &x::spki(&root.pk), &[]);
        let m = if g.one_in(2) { mutate(g, &cert_) } else { cert_.clone() };
        let pem2 = if g.one_in(3) { mutate_text(g, &pem) } else { pem };
        c.case("attestation and import entry points", || format!("auth_data {} signature {} challenge {} certificate {} intermediate {} root {:?}", hex(&a), hex(&sig), hex(&ch), hex(&m), hex(&int), pem2), || {
            let r = sshcerts::fido::verification::verify_auth_data(&a, &sig, &ch, -7, &m, Some(&pem2)).is_ok();
            let _ = sshcerts::yubikey::verification::verify_certificate_chain(&m, &int, Some(&pem2));
            let _ = sshcerts::x509::extract_ssh_pubkey_from_x509_certificate(&m);
            let _ = sshcerts::x509::extract_ssh_pubkey_from_x509_csr(&m);
            let _ = sshcerts::x509::der_encoding_to_ssh_public_key(&m);
            Ok(r)
        });
    }
}
