use hemtt_common::io::*;
use hemtt_common::prefix::Prefix;
use hemtt_common::strip::StripInsensitive;
use hemtt_common::version::Version;
use std::cmp::Ordering;
use std::io::Cursor;
use symrt::*;

/// length-prefixed integers and NUL-terminated strings
pub fn ints(h: u32) {
    match h {
        // every 32-bit value survives encode -> decode, and its announced length is the written length
        0 => {
            let v = u32();
            let mut buf = Vec::new();
            let w = buf.write_compressed_int(v).unwrap();
            check(buf.len() <= 5, "more than five bytes written");
            check(w == buf.len(), "returned length differs from the written length");
            check(compressed_int_len(v) == buf.len(), "announced length differs from the written length");
            let n = buf.len();
            // reference: little-endian groups of seven bits, high bit set on all but the last
            let mut back = 0u64;
            for (i, b) in buf.iter().enumerate() {
                check((*b >= 0x80) == (i + 1 < n), "continuation bit");
                back |= u64::from(*b & 0x7f) << (7 * i);
            }
            check(back == u64::from(v), "encoding is not base 128, little-endian");
            obs(&buf);
            buf.push(0xff);
            let mut c = Cursor::new(buf);
            let r = c.read_compressed_int().unwrap();
            check(r == v, "decode(encode(v)) != v");
            check(c.position() == n as u64, "decoder did not stop at the end of the integer");
            reach("roundtrip");
        }
        // arbitrary bytes: the decoder answers without panicking
        1 => {
            let b = bytes(len(0, 8));
            let mut c = Cursor::new(b);
            match c.read_compressed_int() {
                Ok(v) => {
                    obs_u(u64::from(v));
                    reach("ok");
                }
                Err(_) => reach("err"),
            }
            obs_u(c.position());
        }
        // strings without NUL survive; the reader stops right behind the terminator
        2 => {
            let n = len(0, param(0));
            let mut s = Vec::new();
            for _ in 0..n {
                s.push(range(1, 0x7f));
            }
            let s = String::from_utf8(s).unwrap();
            let mut buf = Vec::new();
            buf.write_cstring(&s).unwrap();
            check(buf.len() == n + 1, "length of the written string");
            buf.push(b'x');
            let mut c = Cursor::new(buf);
            let r = c.read_cstring().unwrap();
            check(r == s, "string changed");
            check(c.position() == n as u64 + 1, "reader position");
            obs(r.as_bytes());
            reach("string");
        }
        // arbitrary bytes as string: no panic
        _ => {
            let b = bytes(len(0, param(0)));
            let mut c = Cursor::new(b);
            let r = c.read_cstring().unwrap();
            obs(r.as_bytes());
            obs_u(c.position());
            reach("any");
        }
    }
}

fn dec(s: &mut Vec<u8>, v: u32) {
    // independent decimal rendering
    let mut d = [0u8; 10];
    let mut n = 0;
    let mut x = v;
    loop {
        d[n] = b'0' + (x % 10) as u8;
        n += 1;
        x /= 10;
        if x == 0 {
            break;
        }
    }
    for i in (0..n).rev() {
        s.push(d[i]);
    }
}

fn small() -> u32 {
    u32::from(u16()) & 0x3fff
}

pub fn version(h: u32) {
    match h {
        // display, parse back
        0 => {
            let hash = flip();
            let build = if flip() { Some(small()) } else { None };
            let (a, b, c) = (u32::from(u8()), u32::from(u8()), u32::from(u8()));
            let mut v = Version::new(a, b, c, build);
            if hash {
                let t = text(b"0a9f", 4);
                v.set_build(String::from_utf8(t).unwrap());
            }
            let s = v.to_string();
            obs(s.as_bytes());
            let r = Version::try_from(s.as_str()).unwrap();
            check(r == v, "parsing the displayed version gives another version");
            check(r.major() == a && r.minor() == b && r.patch() == c && r.build() == build, "components");
            reach("roundtrip");
        }
        // parse of a canonical text gives its numbers
        1 => {
            let digits = text(b"0123456789", len(1, param(0)));
            let v = digits.iter().fold(0u32, |a, d| a.wrapping_mul(10).wrapping_add(u32::from(*d).wrapping_sub(48)));
            let which = choice(4);
            let mut s = Vec::new();
            for i in 0..4 {
                if i > 0 {
                    s.push(b'.');
                }
                if i == which {
                    s.extend(&digits)
                } else {
                    s.push(b'0' + i as u8)
                }
            }
            let s = String::from_utf8(s).unwrap();
            let r = Version::try_from(s.as_str()).unwrap();
            let want = |i: usize| if i == which { v } else { i as u32 };
            check(r.major() == want(0) && r.minor() == want(1) && r.patch() == want(2) && r.build() == Some(want(3)), "parsed components differ");
            reach("parsed");
        }
        // order: by components, a missing build first
        2 => {
            let mk = || {
                let b = if flip() { Some(u32()) } else { None };
                (u32(), u32(), u32(), b)
            };
            let (x, y) = (mk(), mk());
            let (v, w) = (Version::new(x.0, x.1, x.2, x.3), Version::new(y.0, y.1, y.2, y.3));
            let want = (x.0, x.1, x.2, x.3.map_or(0, |b| u64::from(b) + 1)).cmp(&(y.0, y.1, y.2, y.3.map_or(0, |b| u64::from(b) + 1)));
            let got = v.partial_cmp(&w);
            check(got == Some(want), "order differs from the order of the components");
            check((v == w) == (want == Ordering::Equal), "equality and order disagree");
            check((v < w) == (want == Ordering::Less) && (v > w) == (want == Ordering::Greater) && (v <= w) == (want != Ordering::Greater), "comparison operators");
            reach("ordered");
        }
        // arbitrary text: accepted exactly when it is a version
        3 => {
            let n = len(0, param(0));
            let t = text(b"019.-a", n);
            let s = String::from_utf8(t.clone()).unwrap();
            let r = Version::try_from(s.as_str());
            // reference
            let main: &[u8] = match t.iter().position(|c| *c == b'-') {
                Some(i) => &t[..i],
                None => &t,
            };
            let parts: Vec<&[u8]> = main.split(|c| *c == b'.').collect();
            let digits = |p: &[u8]| !p.is_empty() && p.iter().all(u8::is_ascii_digit);
            let valid = parts.len() >= 3 && parts.iter().take(4).all(|p| digits(p));
            check(r.is_ok() == valid, "accepted texts differ from the version grammar");
            if let Ok(v) = r {
                let num = |p: &[u8]| p.iter().fold(0u32, |a, d| a * 10 + u32::from(d - b'0'));
                check(v.major() == num(parts[0]) && v.minor() == num(parts[1]) && v.patch() == num(parts[2]), "components");
                check(v.build() == parts.get(3).map(|p| num(p)), "build");
                obs(v.to_string().as_bytes());
                reach("valid");
            } else {
                reach("invalid");
            }
        }
        // script_version.hpp
        4 => {
            let names = ["MAJOR", "MINOR", "PATCHLVL", "BUILD"];
            let n = 3 + choice(2);
            let rot = choice(n);
            let cm = choice(3);
            let vals: Vec<u32> = (0..n).map(|i| if i == rot { small() } else { u32::from(range(0, 9)) }).collect();
            let mut t: Vec<u8> = Vec::new();
            for k in 0..n {
                let i = (k + rot) % n;
                t.extend(b"#define ");
                t.extend(names[i].as_bytes());
                t.push(b' ');
                dec(&mut t, vals[i]);
                match cm {
                    1 => t.extend(b" // note 7"),
                    2 => t.extend(b"  "),
                    _ => {}
                }
                t.extend(if k == 1 { &b"\r\n"[..] } else { &b"\n"[..] });
            }
            let s = String::from_utf8(t).unwrap();
            obs(s.as_bytes());
            let v = Version::try_from_script_version(&s).unwrap();
            check(v.major() == vals[0] && v.minor() == vals[1] && v.patch() == vals[2], "components of the script version");
            check(v.build() == vals.get(3).copied(), "build of the script version");
            reach("script");
        }
        // a version given as a number, as in requiredVersion: all two decimals count, 1.2 is 1.20
        6 => {
            let (a, b) = (choice(param(0)) as u32, choice(101) as u32);
            let t = if b == 100 { format!("{a}") } else if b % 10 == 0 && flip() { format!("{a}.{}", b / 10) } else { format!("{a}.{b:02}") };
            obs(t.as_bytes());
            let v = Version::from(t.parse::<f32>().unwrap());
            check(v.major() == a && v.minor() == b % 100 && v.patch() == 0 && v.build().is_none(), "components of a version given as a number");
            reach("number");
        }
        // script version: arbitrary short lines never panic; missing parts are errors
        _ => {
            let miss = choice(3);
            let names = ["MAJOR", "MINOR", "PATCH"];
            let mut t = String::new();
            for (i, n) in names.iter().enumerate() {
                if i != miss {
                    t.push_str("#define ");
                    t.push_str(n);
                    t.push_str(" 4\n");
                } else {
                    t.push_str("#define ");
                    t.push_str(n);
                    t.push_str(&String::from_utf8(text(b" 1x/", len(0, param(0)))).unwrap());
                    t.push('\n');
                }
            }
            match Version::try_from_script_version(&t) {
                Ok(v) => {
                    let got = [v.major(), v.minor(), v.patch()];
                    check(got[miss] == 1 || got[miss] == 11 || got[miss] == 111 || got[miss] == 1111, "value that is not in the text");
                    check((0..3).all(|i| i == miss || got[i] == 4), "other component");
                    reach("ok");
                }
                Err(_) => reach("err"),
            }
        }
    }
}

pub fn prefix(h: u32) {
    match h {
        // plain form: parts are exactly the pieces between backslashes
        0 => {
            let n = len(0, param(0));
            let t = text(b"aB\\/= \n", n);
            let s = String::from_utf8(t).unwrap();
            let got = Prefix::new(&s);
            // reference
            let c = s.trim();
            let want: Option<&str> = if c.is_empty() || c.contains('/') {
                None
            } else if !c.contains('\n') && !c.contains('=') {
                Some(c)
            } else {
                // no line of this alphabet can name the key
                None
            };
            let want = want.filter(|w| !w.starts_with('\\'));
            check(got.is_ok() == want.is_some(), "accepted prefixes differ");
            if let (Ok(p), Some(w)) = (got, want) {
                check(p.to_string() == w, "prefix text");
                obs(w.as_bytes());
                let parts: Vec<&str> = w.split('\\').collect();
                check(p.main_prefix() == parts[0], "main part");
                check(p.mod_prefix() == parts.get(1).copied(), "second part");
                check(p.as_pathbuf() == std::path::Path::new(&parts.join("/")), "path of a prefix");
                check(p.into_inner() == parts, "parts");
                reach("plain");
            } else {
                reach("rejected");
            }
        }
        // key form
        1 => {
            let before = flip();
            let key = ["prefix", "PREFIX", "Prefix "][choice(3)];
            let v = text(b"aB\\ ", len(1, param(0)));
            let v = String::from_utf8(v).unwrap();
            let mut s = String::new();
            if before {
                s.push_str("version=1\n");
            }
            s.push_str(key);
            s.push('=');
            s.push_str(&v);
            s.push_str("\nother=z");
            let w = v.trim();
            let got = Prefix::new(&s);
            if w.starts_with('\\') {
                check(got.is_err(), "leading backslash accepted");
                reach("rejected");
            } else {
                check(got.is_ok(), "prefix key not found");
                check(got.unwrap().to_string() == w, "prefix value");
                obs(w.as_bytes());
                reach("key");
            }
        }
        // display, parse again
        2 => {
            let v = text(b"aB\\_", len(1, param(0)));
            let s = String::from_utf8(v).unwrap();
            if let Ok(p) = Prefix::new(&s) {
                let q = Prefix::new(&p.to_string()).unwrap();
                check(p == q, "display and parse are not inverse");
                obs(q.to_string().as_bytes());
                reach("roundtrip");
            }
        }
        // case-insensitive prefix removal, ASCII and multi-byte text
        _ => {
            let pieces = ["a", "A", "b", "é", "É", "/"];
            let mk = |n: usize| {
                let mut s = String::new();
                for _ in 0..n {
                    s.push_str(pieces[choice(pieces.len())]);
                }
                s
            };
            let s = mk(len(0, param(0)));
            let p = mk(len(0, 2));
            let got = s.strip_prefix_insensitive(&p);
            // reference on bytes
            let (sb, pb) = (s.as_bytes(), p.as_bytes());
            let is = sb.len() >= pb.len() && (0..pb.len()).all(|i| sb[i].to_ascii_lowercase() == pb[i].to_ascii_lowercase());
            if is {
                check(got == Some(&s[p.len()..]), "remainder");
                reach("stripped");
            } else {
                check(got.is_none(), "removed something that is not the prefix");
                reach("kept");
            }
        }
    }
}

// ------------------------------------------------------------------ arithmetic
/// reference evaluator: recursive descent over the same grammar
struct P<'a> {
    t: &'a [Tok],
    at: usize,
}
#[derive(Clone, Copy, PartialEq)]
enum Tok {
    N(f64),
    O(u8),
    L,
    R,
}
impl P<'_> {
    fn peek(&self) -> Option<Tok> {
        self.t.get(self.at).copied()
    }
    fn sum(&mut self) -> Option<f64> {
        let mut v = self.prod()?;
        while let Some(Tok::O(o @ (b'+' | b'-'))) = self.peek() {
            self.at += 1;
            let r = self.prod()?;
            v = if o == b'+' { v + r } else { v - r };
        }
        Some(v)
    }
    fn prod(&mut self) -> Option<f64> {
        let mut v = self.pow()?;
        while let Some(Tok::O(o @ (b'*' | b'/' | b'%'))) = self.peek() {
            self.at += 1;
            let r = self.pow()?;
            v = match o {
                b'*' => v * r,
                b'/' => v / r,
                _ => v % r,
            };
        }
        Some(v)
    }
    fn pow(&mut self) -> Option<f64> {
        let v = self.atom()?;
        if self.peek() == Some(Tok::O(b'^')) {
            self.at += 1;
            let r = self.pow()?;
            return Some(v.powf(r));
        }
        Some(v)
    }
    fn atom(&mut self) -> Option<f64> {
        match self.peek()? {
            Tok::N(v) => {
                self.at += 1;
                Some(v)
            }
            Tok::L => {
                self.at += 1;
                let v = self.sum()?;
                if self.peek() != Some(Tok::R) {
                    return None;
                }
                self.at += 1;
                Some(v)
            }
            _ => None,
        }
    }
}
fn lex(s: &[u8]) -> Option<Vec<Tok>> {
    let mut out: Vec<Tok> = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let unary = c == b'-' && matches!(out.last(), None | Some(Tok::O(_) | Tok::L));
        if c.is_ascii_digit() || unary {
            let mut v = 0f64;
            let st = i + usize::from(unary);
            let mut j = st;
            while j < s.len() && s[j].is_ascii_digit() {
                v = v * 10.0 + f64::from(s[j] - b'0');
                j += 1;
            }
            if j == st {
                return None;
            }
            out.push(Tok::N(if unary { -v } else { v }));
            i = j;
            continue;
        }
        match c {
            b' ' => {}
            b'(' => out.push(Tok::L),
            b')' => out.push(Tok::R),
            b'+' | b'-' | b'*' | b'/' | b'^' | b'%' => out.push(Tok::O(c)),
            _ => return None,
        }
        i += 1;
    }
    Some(out)
}
fn reference(s: &[u8]) -> Option<f64> {
    let t = lex(s)?;
    let mut p = P { t: &t, at: 0 };
    let v = p.sum()?;
    if p.at == t.len() {
        Some(v)
    } else {
        None
    }
}
fn same(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        _ => false,
    }
}
pub fn math(h: u32) {
    match h {
        // any text over the alphabet: value of a well-formed expression, nothing otherwise
        0 => {
            let n = len(0, param(0));
            let mut t = text(b"27+-*/^%() ", n);
            // operands become concrete (floating-point arithmetic on symbolic operands is out of reach), operators and shape stay symbolic
            for c in &mut t {
                if c.is_ascii_digit() {
                    *c = conc(u64::from(*c)) as u8;
                }
            }
            let s = String::from_utf8(t.clone()).unwrap();
            let got = hemtt_common::math::eval(&s);
            let want = reference(&t);
            check(got.is_none() || want.is_some(), "malformed expression has a value");
            check(got.is_some() || want.is_none(), "well-formed expression has no value");
            check(same(got, want), "value differs from the reference evaluator");
            reach(if got.is_some() { "value" } else { "none" });
            if let Some(v) = got {
                obs_u(v.to_bits());
            }
        }
        // operand op operand op operand [op operand], all operators, optional parentheses
        _ => {
            let k = 2 + choice(3);
            let lp = choice(k);
            let rp = lp + choice(k - lp);
            let mut t = Vec::new();
            for i in 0..k {
                if i > 0 {
                    t.push(of(b"+-*/^%"));
                }
                if i == lp {
                    t.push(b'(');
                }
                t.push(if choice(2) == 0 { b"2357"[i] } else { b"9264"[i] });
                if i == rp {
                    t.push(b')');
                }
            }
            let s = String::from_utf8(t.clone()).unwrap();
            let got = hemtt_common::math::eval(&s);
            check(got.is_some(), "well-formed expression has no value");
            check(same(got, reference(&t)), "value differs from the reference evaluator");
            reach("shape");
        }
    }
}

const DLCS: [(&str, &str, &str, &[&str]); 8] = [
    ("Contact", "contact", "1021790", &[]),
    ("Creator DLC: Global Mobilization - Cold War Germany", "gm", "1042220", &["Global Mobilization"]),
    ("Creator DLC: S.O.G. Prairie Fire", "vn", "1227700", &["SOG", "Prairie Fire"]),
    ("Creator DLC: CSLA Iron Curtain", "csla", "1294440", &["Iron Curtain"]),
    ("Creator DLC: Western Sahara", "ws", "1681170", &[]),
    ("Creator DLC: Spearhead 1944", "spe", "1175380", &["Spearhead"]),
    ("Creator DLC: Reaction Forces", "rf", "2647760", &[]),
    ("Creator DLC: Expeditionary Forces", "ef", "2647830", &[]),
];

/// a DLC goes by its name, with or without the words in front, its folder and its number, in any case; nothing else names one
pub fn dlc(_: u32) {
    use hemtt_common::arma::dlc::DLC;
    let i = choice(8);
    let d = &DLCS[i];
    let names: Vec<&str> = [d.0, d.0.trim_start_matches("Creator DLC: "), d.1, d.2].into_iter().chain(d.3.iter().copied()).collect();
    let mut name = names[choice(names.len())].as_bytes().to_vec();
    let at = choice(name.len());
    let x = u8();
    let wrong = flip();
    if wrong {
        // any other character at one place, and not another name
        assume(x < 0x80 && x.to_ascii_lowercase() != name[at].to_ascii_lowercase());
        name[at] = x;
        let l = name.to_ascii_lowercase();
        let l = l.strip_prefix(b"creator dlc: ").unwrap_or(&l);
        for o in &DLCS {
            for n in [o.0.trim_start_matches("Creator DLC: "), o.1, o.2].iter().chain(o.3.iter()) {
                assume(l != n.to_ascii_lowercase().as_bytes());
            }
        }
    } else if flip() {
        name = name.to_ascii_uppercase();
    } else if name[at].is_ascii_alphabetic() {
        assume(x == name[at] || x == name[at] ^ 0x20);
        name[at] = x;
    }
    obs(&name);
    let got = DLC::try_from(String::from_utf8(name).unwrap());
    if wrong {
        check(got.is_err(), "a DLC by a name that is none");
        reach("unknown");
    } else {
        let got = got.unwrap();
        check(got.to_mod() == d.1 && got.to_appid() == d.2 && got.to_string() == d.0, "another DLC than the one named");
        reach("known");
    }
}
