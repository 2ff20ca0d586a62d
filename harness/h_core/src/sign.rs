use crate::pbo::{serialise, sha, Arch};
use hemtt_common::BISignVersion;
use hemtt_pbo::ReadablePbo;
use hemtt_signing::*;
use std::io::Cursor;
use symrt::*;

const BITS: u32 = 512;
const N: usize = (BITS / 8) as usize;
const V2: [&str; 13] = ["fxy", "jpg", "lip", "ogg", "p3d", "paa", "pac", "png", "rtm", "rvmat", "tga", "wrp", "wss"];
const V3: [&str; 11] = ["bikb", "cfg", "ext", "fsm", "h", "hpp", "inc", "sqf", "sqfc", "sqm", "sqs"];

/// modulus 2^(BITS-1): with exponent 1, raising to a power is the identity on padded hashes
fn modulus() -> Vec<u8> {
    let mut n = vec![0u8; N];
    n[N - 1] = 0x80;
    n
}
fn public(auth: &str, e: u32, n: &[u8]) -> Vec<u8> {
    let mut o = auth.as_bytes().to_vec();
    o.push(0);
    o.extend((BITS / 8 + 20).to_le_bytes());
    o.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
    o.extend(BITS.to_le_bytes());
    o.extend(e.to_le_bytes());
    o.extend(n);
    o
}
fn signature(auth: &str, e: u32, n: &[u8], ver: u32, sig: [&[u8]; 3]) -> Vec<u8> {
    let mut o = public(auth, e, n);
    o.extend((BITS / 8).to_le_bytes());
    o.extend(sig[0]);
    o.extend(ver.to_le_bytes());
    o.extend((BITS / 8).to_le_bytes());
    o.extend(sig[1]);
    o.extend((BITS / 8).to_le_bytes());
    o.extend(sig[2]);
    o
}
fn private(auth: &str, e: u32, n: &[u8], d: u8, fill: u8) -> Vec<u8> {
    let mut o = auth.as_bytes().to_vec();
    o.push(0);
    o.extend((BITS / 16 * 9 + 20).to_le_bytes());
    o.extend(b"\x07\x02\x00\x00\x00\x24\x00\x00RSA2");
    o.extend(BITS.to_le_bytes());
    o.extend(e.to_le_bytes());
    o.extend(n);
    for i in 0..5u8 {
        o.extend(vec![fill.wrapping_add(i) | 1; N / 2]);
    }
    let mut dd = vec![0u8; N];
    dd[0] = d;
    o.extend(dd);
    o
}
/// PKCS#1 v1.5 block, little-endian as stored
fn pad(hash: &[u8]) -> Vec<u8> {
    let mut o = vec![0, 1];
    while o.len() < N - 36 {
        o.push(0xff);
    }
    o.extend(b"\x00\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14");
    o.extend(hash);
    o.reverse();
    o
}
fn prefixed(mut v: Vec<u8>, prefix: Option<&str>) -> Vec<u8> {
    if let Some(p) = prefix {
        v.extend(p.as_bytes());
        if !p.ends_with('\\') {
            v.push(b'\\');
        }
    }
    v
}
/// the three hashes of an archive (files sorted), from the documentation of the format
fn hashes(a: &Arch, ver: u32) -> [Vec<u8>; 3] {
    let raw = serialise(a);
    let h1 = raw[raw.len() - 20..].to_vec();
    let mut names = Vec::new();
    let mut data = Vec::new();
    let mut any = false;
    for (n, d) in &a.files {
        if !d.is_empty() {
            names.extend(n.to_ascii_lowercase().as_bytes());
        }
        let ext = n.rsplit_once('.').map_or("", |x| x.1);
        let list: &[&str] = if ver == 2 { &V2 } else { &V3 };
        if list.contains(&ext) {
            any = true;
            data.extend(d);
        }
    }
    if !any {
        data = if ver == 2 { b"nothing".to_vec() } else { b"gnihton".to_vec() };
    }
    let p = a.props.iter().find(|p| p.0 == "prefix").map(|p| p.1.as_str());
    let mut b2 = h1.clone();
    b2.extend(sha(&names));
    let mut b3 = sha(&data);
    b3.extend(sha(&names));
    [h1, sha(&prefixed(b2, p)), sha(&prefixed(b3, p))]
}
fn archive(max: usize) -> Arch {
    const NAMES: [&str; 6] = ["b.sqf", "C.paa", "d.txt", "e", "f\\x.cfg", "g.SQF"];
    let a = choice(NAMES.len());
    let mut files = vec![("a.hpp".to_string(), bytes(len(0, 1)))];
    files.push((NAMES[a].to_string(), bytes(len(0, max))));
    let props = match choice(5) {
        0 => vec![],
        1 => vec![("prefix".to_string(), String::from_utf8(text(b"zy", 2)).unwrap())],
        2 => vec![("prefix".to_string(), "z\\a\\".to_string()), ("version".to_string(), "1".to_string())],
        // stored by other tools
        3 => vec![("prefix".to_string(), ["", "z\\\\", "\\z", "\\", "Z\\A b", "z/a"][choice(6)].to_string())],
        _ => vec![("x".to_string(), "1".to_string())],
    };
    Arch { vers: true, props, files }
}
fn pbo(a: &Arch) -> ReadablePbo<Cursor<Vec<u8>>> {
    ReadablePbo::from(Cursor::new(serialise(a))).unwrap()
}
fn ver(v: u32) -> BISignVersion {
    if v == 2 {
        BISignVersion::V2
    } else {
        BISignVersion::V3
    }
}
fn any3(v: &[u8]) -> bool {
    v.iter().fold(0u8, |a, b| a | b) != 0
}

pub fn run(h: u32) {
    match h {
        // the signature is the padded hashes to the power of the private exponent, with the key's fields
        0 => {
            let v = 2 + choice(2) as u32;
            let a = archive(param(0));
            let e = 0x0001_0001;
            let k = BIPrivateKey::read(&mut Cursor::new(private("me", e, &modulus(), 1, 40))).unwrap();
            let s = k.sign(&mut pbo(&a), ver(v)).unwrap();
            let mut out = Vec::new();
            s.write(&mut out).unwrap();
            let hs = hashes(&a, v);
            let want = signature("me", e, &modulus(), v, [&pad(&hs[0]), &pad(&hs[1]), &pad(&hs[2])]);
            check(out == want, "signature differs from the reference signature");
            reach("signed");
        }
        // sign, verify with the public part
        1 => {
            let v = 2 + choice(2) as u32;
            let a = archive(param(0));
            let k = BIPrivateKey::read(&mut Cursor::new(private("me", 1, &modulus(), 1, 40))).unwrap();
            let s = k.sign(&mut pbo(&a), ver(v)).unwrap();
            let mut out = Vec::new();
            s.write(&mut out).unwrap();
            let s = BISign::read(&mut Cursor::new(out)).unwrap();
            let mut kb = Vec::new();
            k.to_public_key().write(&mut kb).unwrap();
            check(kb == public("me", 1, &modulus()), "public key of the private key");
            let pk = BIPublicKey::read(&mut Cursor::new(kb)).unwrap();
            check(pk.verify(&mut pbo(&a), &s).is_ok(), "own signature rejected");
            reach("verified");
        }
        // any signature bytes other than the right ones are rejected
        2 => {
            let v = 2 + choice(2) as u32;
            let a = Arch { vers: true, props: vec![("prefix".into(), "z".into())], files: vec![("a.sqf".into(), b"x".to_vec()), ("b.paa".into(), b"y".to_vec())] };
            let hs = hashes(&a, v);
            let mut sg = [pad(&hs[0]), pad(&hs[1]), pad(&hs[2])];
            let which = choice(3);
            let at = [0usize, 8, 16, 18, 24, 32, 35, 40, 59, 61][choice(10)];
            let x: [u8; 2] = array();
            for i in 0..2 {
                sg[which][at + i] ^= x[i];
            }
            let right = !any3(&x);
            let s = BISign::read(&mut Cursor::new(signature("me", 1, &modulus(), v, [&sg[0], &sg[1], &sg[2]]))).unwrap();
            let pk = BIPublicKey::read(&mut Cursor::new(public("me", 1, &modulus()))).unwrap();
            let ok = pk.verify(&mut pbo(&a), &s).is_ok();
            check(ok == right, "a signature with other bytes is accepted, or the right one rejected");
            reach(if ok { "accepted" } else { "rejected" });
        }
        // a signature made with another key (other modulus, exponent or authority) is rejected
        3 => {
            let a = Arch { vers: true, props: vec![("prefix".into(), "z".into())], files: vec![("a.sqf".into(), b"x".to_vec())] };
            let hs = hashes(&a, 3);
            let sg = [pad(&hs[0]), pad(&hs[1]), pad(&hs[2])];
            let mut kn = modulus();
            let (mut auth, mut e) = ("me".to_string(), 1);
            match choice(3) {
                // key with another modulus, below the hashes: the true power differs
                0 => {
                    let b = u8();
                    assume((b & 1 == 0) & (b != 0));
                    kn = vec![0u8; N];
                    kn[N - 4] = b;
                }
                1 => {
                    // two forms of the same exponent do not exist
                    e = 0;
                }
                _ => {
                    auth = String::from_utf8(text(b"mex", len(1, 3))).unwrap();
                    assume(auth != "me");
                }
            }
            let s = BISign::read(&mut Cursor::new(signature("me", 1, &modulus(), 3, [&sg[0], &sg[1], &sg[2]]))).unwrap();
            let pk = BIPublicKey::read(&mut Cursor::new(public(&auth, e, &kn))).unwrap();
            check(pk.verify(&mut pbo(&a), &s).is_err(), "signature of another key accepted");
            reach("rejected");
        }
        // key and signature files: read, write is the identity on every field
        4 => {
            let e = u32();
            assume(e != 0);
            let auth = String::from_utf8(text(b"a_", len(0, 2))).unwrap();
            match choice(3) {
                0 => {
                    let mut n = vec![7u8; N];
                    for i in 0..param(0) {
                        n[N - 1 - i] = u8();
                    }
                    let b = public(&auth, e, &n);
                    let mut out = Vec::new();
                    let k = BIPublicKey::read(&mut Cursor::new(b.clone())).unwrap();
                    check(k.authority() == auth && k.length() == BITS, "fields of a public key");
                    k.write(&mut out).unwrap();
                    check(out == b, "public key file changed");
                    reach("public");
                }
                1 => {
                    let b = private(&auth, e, &modulus(), u8(), u8());
                    let mut out = Vec::new();
                    BIPrivateKey::read(&mut Cursor::new(b.clone())).unwrap().write_danger(&mut out).unwrap();
                    check(out == b, "private key file changed");
                    reach("private");
                }
                _ => {
                    let mut sg = [vec![1u8; N], vec![2u8; N], vec![3u8; N]];
                    let w = choice(3);
                    for i in 0..param(0) {
                        sg[w][N - 1 - i] = u8();
                    }
                    let b = signature(&auth, e, &modulus(), 2 + choice(2) as u32, [&sg[0], &sg[1], &sg[2]]);
                    let mut out = Vec::new();
                    BISign::read(&mut Cursor::new(b.clone())).unwrap().write(&mut out).unwrap();
                    check(out == b, "signature file changed");
                    reach("signature");
                }
            }
        }
        // an archive whose entries are not sorted does not verify
        5 => {
            let n = [vec![conc(u64::from(of(b"abAB"))) as u8], vec![conc(u64::from(of(b"abAB"))) as u8]];
            let l = |x: &[u8]| x[0].to_ascii_lowercase();
            assume(l(&n[0]) != l(&n[1]));
            let a = Arch { vers: true, props: vec![], files: n.iter().map(|n| (String::from_utf8(n.clone()).unwrap(), vec![1])).collect() };
            let sorted = l(&n[0]) < l(&n[1]);
            let mut b = Arch { vers: true, props: vec![], files: a.files.clone() };
            if !sorted {
                b.files.reverse();
            }
            let hs = hashes(&b, 3);
            let s = BISign::read(&mut Cursor::new(signature("me", 1, &modulus(), 3, [&pad(&hs[0]), &pad(&hs[1]), &pad(&hs[2])]))).unwrap();
            let pk = BIPublicKey::read(&mut Cursor::new(public("me", 1, &modulus()))).unwrap();
            let ok = pk.verify(&mut pbo(&a), &s).is_ok();
            check(ok == sorted, "sorting requirement");
            reach(if ok { "sorted" } else { "unsorted" });
        }
        // which files are covered, by extension
        6 => {
            let n = len(1, param(0));
            let t = text(b"paswdx.c", n);
            let name = String::from_utf8(t).unwrap();
            // a name that is only ".ext" has no extension
            let ext = match name.rsplit_once('.') {
                Some((stem, e)) if !stem.is_empty() => e,
                _ => "",
            };
            assume(name != "." && name != ".." && !name.starts_with(".."));
            check(BISignVersion::V2.should_hash_file(&name) == V2.contains(&ext), "files covered by version 2");
            check(BISignVersion::V3.should_hash_file(&name) == V3.contains(&ext), "files covered by version 3");
            reach("ext");
        }
        // archives of many files
        8 => {
            let v = 2 + choice(2) as u32;
            let n = [17usize, 130, 260][choice(3)];
            let mut files: Vec<(String, Vec<u8>)> = (0..n)
                .map(|i| (format!("{}{}\\{}.{}", ["d", "D", "e"][i % 3], i / 40, i, ["sqf", "paa", "txt", "P3D", "hpp"][i % 5]), vec![i as u8; [0, 1, 300, 2][(i / 3) % 4]]))
                .collect();
            files[4].1 = vec![3; 70_000];
            files[6].1 = vec![5; 70_000];
            files.sort_by_key(|f| f.0.to_ascii_lowercase());
            let a = Arch { vers: true, props: vec![("prefix".into(), "z\\".repeat(150))], files };
            let k = BIPrivateKey::read(&mut Cursor::new(private("me", 1, &modulus(), 1, 40))).unwrap();
            let s = k.sign(&mut pbo(&a), ver(v)).unwrap();
            let mut out = Vec::new();
            s.write(&mut out).unwrap();
            let hs = hashes(&a, v);
            check(out == signature("me", 1, &modulus(), v, [&pad(&hs[0]), &pad(&hs[1]), &pad(&hs[2])]), "signature of an archive of many files");
            check(k.to_public_key().verify(&mut pbo(&a), &s).is_ok(), "own signature of an archive of many files rejected");
            reach("many");
        }
        // malformed key and signature files
        _ => {
            let kind = choice(3);
            let mut b = match kind {
                0 => public("a", 1, &modulus()),
                1 => private("a", 1, &modulus(), 1, 3),
                _ => signature("a", 1, &modulus(), 3, [&[1; N], &[2; N], &[3; N]]),
            };
            match choice(3) {
                0 => {
                    let cut = choice(param(0));
                    let l = b.len() - 1 - cut;
                    b.truncate(l);
                    reach("cut");
                    let mut c = Cursor::new(b);
                    let err = match kind {
                        0 => BIPublicKey::read(&mut c).is_err(),
                        1 => BIPrivateKey::read(&mut c).is_err(),
                        _ => BISign::read(&mut c).is_err(),
                    };
                    check(err, "truncated file accepted");
                }
                1 => {
                    // length fields
                    let x: [u8; 2] = array();
                    b[2] = x[0];
                    b[18] = x[1];
                    let mut c = Cursor::new(b);
                    match kind {
                        0 => drop(BIPublicKey::read(&mut c)),
                        1 => drop(BIPrivateKey::read(&mut c)),
                        _ => drop(BISign::read(&mut c)),
                    }
                    reach("length");
                }
                _ => {
                    let mut b = text(b"a\xc3\xa9\0", len(0, 2));
                    b.push(0);
                    b.extend(bytes(len(0, 26)));
                    let mut c = Cursor::new(b);
                    match kind {
                        0 => drop(BIPublicKey::read(&mut c)),
                        1 => drop(BIPrivateKey::read(&mut c)),
                        _ => drop(BISign::read(&mut c)),
                    }
                    reach("any");
                }
            }
        }
    }
}
