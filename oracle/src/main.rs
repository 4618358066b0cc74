//! oracle PROPERTY SEED SECONDS: search for an input on which the real library and the
//! executable specification of the property disagree.
mod alloc;
mod dict;
mod gen;
mod props;
mod signers;
mod spec;
mod util;
mod x;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "literals" {
        let (t, n) = dict::literals();
        t.iter().for_each(|(x, k)| println!("{} {:?}", k, x));
        n.iter().for_each(|(x, k)| println!("{} {}", k, x));
        return;
    }
    if a[1] == "rare" {
        return gen::search_rare();
    }
    let (seed, secs): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    // one time zone per process: chrono looks at a changed one only after a while
    std::env::set_var("TZ", if seed / 1000 % 2 == 0 { "EST5EDT,M3.2.0,M11.1.0" } else { "UTC0" });
    util::quiet_panics();
    let mut c = util::Ctx::new(seed, secs);
    let keys = gen::pool();
    let k = &keys[..];
    match a[1].as_str() {
        "C01" => props::certs(&mut c, k, true),
        "C02" => props::certs(&mut c, k, false),
        "C03" => props::issue(&mut c, k, false),
        "C04" => props::issue(&mut c, k, true),
        "C05" => props::sigs(&mut c, k, false),
        "C06" => props::sigs(&mut c, k, true),
        "C07" => props::sig_texts(&mut c, k),
        "C08" => props::reader(&mut c),
        "C09" => props::writer(&mut c, k),
        "C10" => props::pubkeys(&mut c, k),
        "C11" => props::names(&mut c),
        "C12" => props::private_load(&mut c, k),
        "C13" => props::private_write(&mut c, k),
        "C14" => props::private_sign(&mut c, k),
        "C15" => props::wiped(&mut c),
        "C16" => props::allowed(&mut c, k),
        "C17" => props::fido_parse(&mut c),
        "C18" => props::fido_verify(&mut c, k),
        "C19" => props::piv(&mut c, k),
        "C20" => props::import(&mut c, k),
        "C21" => props::no_panic(&mut c, k, secs),
        "C22" => props::der(&mut c, k),
        _ => std::process::exit(2),
    }
    c.report();
}
