use hemtt_pbo::*;
use sha1::{Digest, Sha1};
use std::io::{Cursor, Read};
use symrt::*;

pub fn sha(b: &[u8]) -> Vec<u8> {
    let mut h = Sha1::new();
    h.update(b);
    h.finalize().to_vec()
}

pub fn entry(out: &mut Vec<u8>, name: &[u8], mime: u32, original: u32, reserved: u32, time: u32, size: u32) {
    out.extend(name);
    out.push(0);
    for v in [mime, original, reserved, time, size] {
        out.extend(v.to_le_bytes());
    }
}
pub const VERS: u32 = 0x5665_7273;

pub struct Arch {
    pub vers: bool,
    pub props: Vec<(String, String)>,
    /// in stored order
    pub files: Vec<(String, Vec<u8>)>,
}
/// reference serialiser, from the format description
pub fn serialise(a: &Arch) -> Vec<u8> {
    let mut o = Vec::new();
    if a.vers {
        entry(&mut o, b"", VERS, 0, 0, 0, 0);
        for (k, v) in &a.props {
            o.extend(k.as_bytes());
            o.push(0);
            o.extend(v.as_bytes());
            o.push(0);
        }
        o.push(0);
    }
    for (n, d) in &a.files {
        entry(&mut o, n.as_bytes(), 0, d.len() as u32, 0, 0, d.len() as u32);
    }
    entry(&mut o, b"", 0, 0, 0, 0, 0);
    for (_, d) in &a.files {
        o.extend(d);
    }
    let h = sha(&o);
    o.push(0);
    o.extend(h);
    o
}
fn s(b: Vec<u8>) -> String {
    String::from_utf8(b).unwrap()
}
fn lower(n: &str) -> Vec<u8> {
    n.bytes().map(|c| c.to_ascii_lowercase()).collect()
}
/// names as the caller gives them
fn name(max: usize) -> String {
    let n = len(1, max);
    s(text(b"aBc/\\._", n))
}
fn norm(n: &str) -> String {
    n.replace('/', "\\")
}
/// pairwise different, ignoring case and the kind of slash
fn distinct(files: &[(String, Vec<u8>)]) {
    for i in 0..files.len() {
        for j in 0..i {
            assume(lower(&norm(&files[i].0)) != lower(&norm(&files[j].0)));
        }
    }
}
fn content(max: usize) -> Vec<u8> {
    bytes(len(0, max))
}
fn read(p: &mut ReadablePbo<Cursor<Vec<u8>>>, n: &str) -> Option<Vec<u8>> {
    let mut f = p.file(n).unwrap()?;
    let mut v = Vec::new();
    f.read_to_end(&mut v).unwrap();
    Some(v)
}
fn props() -> Vec<(String, String)> {
    let mut p: Vec<(String, String)> = Vec::new();
    let kind = choice(4);
    if kind & 1 == 1 {
        p.push(("a".into(), s(text(b"xy", len(0, 2)))));
    }
    if kind & 2 == 2 {
        p.push(("prefix".into(), s(text(b"z\\", len(0, 3)))));
    }
    if flip() {
        p.push((s(vec![range(b'b', b'd')]), "v".into()));
    }
    p
}

/// names outside ASCII, blanks, properties in capitals
fn unusual(what: usize) {
    let names = ["\u{c9}b.x", "\u{e9}a.x", "Z y", " a", "a ", "\u{df}/\u{d6}", "\u{416}\u{e9}"];
    let i = choice(names.len());
    let j = choice(names.len());
    assume(i != j);
    let k = (i + 1 + choice(2)) % names.len();
    let mut files = vec![(names[i], b"1".to_vec()), (names[j], vec![])];
    if k != i && k != j {
        files.push((names[k], vec![2, 3]));
    }
    let lowered = |n: &str| norm(n).to_lowercase();
    let mut w = WritablePbo::new();
    let keys = ["PREFIX", "Prefix ", "prefix", "\u{e9}", "version", " "];
    let values = [" x", "x ", "", "\u{e9}\\y", "\\X\\", "/z/", "\n"];
    let a = choice(keys.len());
    let pr = vec![(keys[a], values[choice(values.len())]), (keys[(a + 1) % keys.len()], "1")];
    if what == 0 {
        for (k, v) in &pr {
            w.add_property(*k, *v);
        }
    }
    for (n, d) in &files {
        w.add_file(*n, Cursor::new(d.clone())).unwrap();
    }
    let mut out = Vec::new();
    let sum = w.write(&mut out, what == 0).unwrap();
    let mut p = ReadablePbo::from(Cursor::new(out.clone())).unwrap();
    match what {
        0 => {
            let mut want: Vec<(String, String)> = pr.iter().map(|(k, v)| (k.to_string(), v.trim_matches('\\').to_string())).collect();
            if want[1].0 == "prefix" {
                want.reverse();
            }
            let got: Vec<(String, String)> = p.properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            check(got == want, "unusual properties read back");
            files.sort_by_key(|f| lowered(f.0));
            let heads = p.files();
            check(heads.len() == files.len(), "number of entries read back");
            for (h, (n, d)) in heads.iter().zip(&files) {
                check(h.filename() == norm(n) && h.size() as usize == d.len(), "unusual entry");
                check(read(&mut p, n).as_ref() == Some(d), "contents of an unusual entry");
            }
            check(p.is_sorted().is_ok(), "written archive is not sorted");
        }
        1 => {
            check(sum.as_bytes()[..] == sha(&out[..out.len() - 21]), "checksum is not the SHA-1 of the archive");
            let again = p.gen_checksum().unwrap();
            check(again == *p.checksum() && again == sum, "recomputed checksum differs");
        }
        _ => {
            for (n, d) in &files {
                for q in [n.to_lowercase(), norm(n), n.replace('\u{e9}', "\u{c9}"), n.replace('\u{d6}', "\u{f6}"), n.to_uppercase()] {
                    let same = files.iter().find(|f| lowered(f.0) == lowered(&q));
                    check(read(&mut p, &q).as_ref() == same.map(|f| &f.1), "lookup of an unusual name");
                    check(p.header(&q).map(|h| h.filename().to_string()) == same.map(|f| norm(f.0)), "entry of an unusual name");
                    check(q.to_lowercase() != n.to_lowercase() || read(&mut p, &q).as_ref() == Some(d), "an unusual name is not found");
                }
            }
            let mut v = WritablePbo::new();
            for (n, d) in files.iter().rev() {
                v.add_file(*n, Cursor::new(d.clone())).unwrap();
            }
            let mut again = Vec::new();
            v.write(&mut again, false).unwrap();
            check(again == out, "insertion order changes the archive");
        }
    }
    reach("unusual");
}

pub fn run(h: u32) {
    match h {
        // write -> read, any names, contents and properties
        0 => {
            let nf = len(0, param(0));
            let mut files: Vec<(String, Vec<u8>)> = (0..nf).map(|_| (name(param(1)), content(param(2)))).collect();
            distinct(&files);
            let with = flip();
            let props = if with && nf < 2 { props() } else { vec![("prefix".into(), "z\\m".into()), ("k".into(), "".into())] };
            let mut w = WritablePbo::new();
            for (k, v) in &props {
                w.add_property(k.as_str(), v.as_str());
            }
            for (n, d) in &files {
                w.add_file(n.as_str(), Cursor::new(d.clone())).unwrap();
            }
            let mut out = Vec::new();
            let sum = w.write(&mut out, with).unwrap();
            obs(&out[..out.len() - 20]);
            // expected archive: names normalised, sorted by lower-case name, prefix first
            files.sort_by(|a, b| lower(&norm(&a.0)).cmp(&lower(&norm(&b.0))));
            let mut pr: Vec<(String, String)> = props.iter().map(|(k, v)| (k.clone(), v.trim_matches('\\').to_string())).collect();
            if let Some(i) = pr.iter().position(|p| p.0 == "prefix") {
                let x = pr.remove(i);
                pr.insert(0, x);
            }
            let want = Arch { vers: with, props: if with { pr } else { vec![] }, files: files.iter().map(|f| (norm(&f.0), f.1.clone())).collect() };
            let wb = serialise(&want);
            check(out.len() == wb.len(), "length of the written archive");
            let cut = out.len() - 21;
            check(out[..cut] == wb[..cut], "bytes of the written archive");
            check(out == wb, "trailer of the written archive");
            check(sum.as_bytes()[..] == wb[cut + 1..], "returned checksum");
            // read it back
            let mut p = ReadablePbo::from(Cursor::new(out.clone())).unwrap();
            check(p.checksum().as_bytes()[..] == wb[cut + 1..], "stored checksum as read");
            let got: Vec<(String, String)> = p.properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            check(got == want.props, "properties read back");
            check(p.files().len() == want.files.len(), "number of entries read back");
            check(p.is_sorted().is_ok(), "written archive is not sorted");
            let heads = p.files();
            let mut off = cut - files.iter().map(|f| f.1.len()).sum::<usize>();
            for (i, (n, d)) in want.files.iter().enumerate() {
                check(heads[i].filename() == n, "entry name");
                check(heads[i].size() as usize == d.len() && heads[i].original() as usize == d.len(), "entry size");
                check(read(&mut p, n).as_ref() == Some(d), "entry contents");
                check(p.file_offset(n).unwrap() == Some(off as u64), "entry offset");
                check(out[off..off + d.len()] == d[..], "contents at the reported offset");
                off += d.len();
            }
            reach("roundtrip");
        }
        // recomputed checksum
        1 => {
            let nf = len(0, param(0));
            let mut files: Vec<(String, Vec<u8>)> = (0..nf).map(|_| (name(param(1)), content(param(2)))).collect();
            distinct(&files);
            let with = flip();
            let mut w = WritablePbo::new();
            let nprop = choice(3);
            if nprop > 0 {
                w.add_property("version", s(text(b"01", 1)));
            }
            if nprop > 1 {
                w.add_property("prefix", s(text(b"z\\a", len(0, 2))));
            }
            for (n, d) in files.drain(..) {
                w.add_file(n, Cursor::new(d)).unwrap();
            }
            let mut out = Vec::new();
            let sum = w.write(&mut out, with).unwrap();
            check(sum.as_bytes()[..] == sha(&out[..out.len() - 21]), "checksum is not the SHA-1 of the archive");
            let mut p = ReadablePbo::from(Cursor::new(out.clone())).unwrap();
            let again = p.gen_checksum().unwrap();
            check(again == *p.checksum(), "recomputed checksum differs from the stored one");
            check(again == sum, "recomputed checksum differs from the written one");
            obs_u(out.len() as u64);
            reach("same");
        }
        // lookups ignore case and the kind of slash, and find nothing else
        2 => {
            let nf = len(1, param(0));
            let files: Vec<(String, Vec<u8>)> = (0..nf).map(|i| (name(param(1)), vec![i as u8; i + 1])).collect();
            distinct(&files);
            let mut w = WritablePbo::new();
            // with a header of its own the name is written as it is there
            let own = flip();
            let put = |n: &str| if own { n.to_string() } else { norm(n) };
            for (n, d) in &files {
                if own {
                    w.add_file_with_header(Header::new_for_file(n.clone(), d.len() as u32), Cursor::new(d.clone())).unwrap();
                } else {
                    w.add_file(n.as_str(), Cursor::new(d.clone())).unwrap();
                }
            }
            let q = s(text(b"aAbBcC/\\._", len(0, param(1))));
            let same = files.iter().find(|f| norm(&f.0) == norm(&q));
            match w.file(&q).unwrap() {
                Some(f) => {
                    let mut v = Vec::new();
                    f.read_to_end(&mut v).unwrap();
                    check(same.is_some_and(|f| f.1 == v), "another file is found while building");
                }
                None => check(same.is_none(), "a file is not found while building"),
            }
            for (n, d) in &files {
                let mut v = Vec::new();
                w.file(n).unwrap().unwrap().read_to_end(&mut v).unwrap();
                check(v == *d, "lookup while building");
            }
            let mut out = Vec::new();
            w.write(&mut out, true).unwrap();
            let mut p = ReadablePbo::from(Cursor::new(out)).unwrap();
            let hit = files.iter().find(|f| lower(&norm(&f.0)) == lower(&norm(&q)));
            let got = read(&mut p, &q);
            let off = p.file_offset(&q).unwrap();
            let head = p.header(&q).map(|h| (h.filename().to_string(), h.size() as usize));
            match hit {
                Some(f) => {
                    check(got.as_ref() == Some(&f.1), "lookup returned other contents");
                    check(off.is_some(), "offset of an existing file");
                    check(head == Some((put(&f.0), f.1.len())), "entry of an existing file");
                    reach("hit");
                }
                None => {
                    check(got.is_none() && off.is_none() && head.is_none(), "found a file that does not exist");
                    reach("miss");
                }
            }
            // exact name
            for (n, _) in &files {
                check(p.header(n).is_some_and(|h| h.filename() == put(n)), "header by name");
            }
            obs_u(got.map_or(99, |g| g.len() as u64));
        }
        // the archive does not depend on the order in which files are added
        3 => {
            let nf = len(2, param(0));
            let files: Vec<(String, Vec<u8>)> = (0..nf).map(|i| (name(param(1)), vec![i as u8; i])).collect();
            distinct(&files);
            let perm = choice(nf);
            let rev = flip();
            let build = |order: Vec<usize>| {
                let mut w = WritablePbo::new();
                w.add_property("prefix", "a");
                for i in order {
                    w.add_file(files[i].0.as_str(), Cursor::new(files[i].1.clone())).unwrap();
                }
                let mut out = Vec::new();
                w.write(&mut out, true).unwrap();
                out
            };
            let a = build((0..nf).collect());
            let mut o: Vec<usize> = (0..nf).map(|i| (i + perm) % nf).collect();
            if rev {
                o.reverse();
            }
            let b = build(o);
            check(a == b, "insertion order changes the archive");
            reach("order");
        }
        // arbitrary bytes: an answer, never a panic
        4 => {
            let mut b = bytes(len(0, 2));
            b.push(0);
            b.extend(bytes(len(0, param(0))));
            any(b);
        }
        // arbitrary entry header and property section in front of a fixed tail
        5 => {
            let mut b = Vec::new();
            if flip() {
                entry(&mut b, b"", VERS, 0, 0, 0, 0);
                b.extend(text(b"aB\0\xc3\xa9", len(0, param(0))));
                b.push(0);
            }
            let n = choice(3);
            for i in 0..n {
                let nm = text(b"aB\0/\\.\xc3\xa9", len(1, param(1)));
                entry(&mut b, &nm, if i == 0 { u32() } else { 0 }, 1, 0, 0, if i == 0 { u32::from(u8()) } else { 1 });
            }
            entry(&mut b, b"", 0, 0, 0, 0, 0);
            b.extend(b"abc");
            b.extend([7u8; 21]);
            any(b);
        }
        // strict prefixes and extensions of an archive are rejected
        6 => {
            let a = Arch { vers: flip(), props: vec![("prefix".into(), s(text(b"z\\", 2)))], files: vec![("a".into(), content(2)), ("b".into(), content(1))] };
            let mut b = serialise(&a);
            check(ReadablePbo::from(Cursor::new(b.clone())).is_ok(), "archive rejected");
            if flip() {
                let cut = choice(b.len());
                b.truncate(cut);
                check(ReadablePbo::from(Cursor::new(b)).is_err(), "truncated archive accepted");
                reach("cut");
            } else {
                b.extend(bytes(len(1, 2)));
                check(ReadablePbo::from(Cursor::new(b)).is_err(), "data after the checksum accepted");
                reach("extended");
            }
        }
        // archives of other tools: any property bytes, any entry order; contents are found where they are stored
        7 => {
            let mut o = Vec::new();
            let vers = flip();
            if vers {
                entry(&mut o, b"", VERS, u32(), 0, 0, 0);
                for _ in 0..choice(2) + 1 {
                    o.push(range(b'a', b'c'));
                    o.push(0);
                    let v = bytes(len(0, param(0)));
                    for c in &v {
                        assume(*c != 0);
                    }
                    o.extend(v);
                    o.push(0);
                }
                o.push(0);
            }
            let order = flip();
            let names: [&str; 2] = if order { ["a.sqf", "b.sqf"] } else { ["b.sqf", "a.sqf"] };
            let d = [content(param(1)), content(param(1))];
            let time = u32();
            let (original, reserved) = (u32(), u32());
            for i in 0..2 {
                entry(&mut o, names[i].as_bytes(), 0, original, reserved, time, d[i].len() as u32);
            }
            entry(&mut o, b"", 0, 0, 0, 0, 0);
            let start = o.len();
            o.extend(&d[0]);
            o.extend(&d[1]);
            o.push(0);
            o.extend([9u8; 20]);
            let mut p = ReadablePbo::from(Cursor::new(o)).unwrap();
            for i in 0..2 {
                check(read(&mut p, names[i]).as_ref() == Some(&d[i]), "contents of an entry");
                let e = &p.files()[i];
                check(e.timestamp() == time && e.original() == original && e.reserved() == reserved && e.size() as usize == d[i].len() && e.filename() == names[i], "fields of an entry");
                check(p.file_offset(names[i]).unwrap() == Some((start + i * d[0].len()) as u64), "offset of an entry");
            }
            check(p.is_sorted().is_ok() == order, "sortedness");
            check(p.checksum().as_bytes() == &[9u8; 20], "stored checksum");
            reach("foreign");
        }
        // any history of changes, then writing: the archive is what was put in last
        8 => history(param(0)),
        // many entries and properties, long names, contents above 64 KiB
        10 => many(),
        11 => unusual(param(0)),
        // a file above the size from which hashing and writing run in parallel
        _ => {
            let mut d = (0..=250u8).collect::<Vec<_>>().repeat(3985);
            d.truncate(1_000_001);
            let l = d.len();
            d[l - 1] = u8();
            let mut w = WritablePbo::new();
            w.add_file("x", Cursor::new(d.clone())).unwrap();
            w.add_file("z", Cursor::new(vec![u8()])).unwrap();
            let mut out = Vec::new();
            let sum = w.write(&mut out, true).unwrap();
            let cut = out.len() - 21;
            check(sum.as_bytes()[..] == sha(&out[..cut]), "checksum of a large archive");
            check(out[cut - 1 - l..cut - 1] == d[..], "contents of a large file");
            check(out[cut + 1..] == sum.as_bytes()[..], "trailer of a large archive");
            reach("large");
        }
    }
}

fn many() {
    let n = [17usize, 130, 260][choice(3)];
    let mut files: Vec<(String, Vec<u8>)> = (0..n)
        .map(|i| {
            let long = if i == 3 { "n".repeat(300) } else { String::new() };
            let name = format!("{}{}\\{}{long}.sqf", ["d", "D", "e"][i % 3], i / 40, i);
            (name, vec![i as u8; [0, 1, 255, 256, 257][i % 5]])
        })
        .collect();
    files[5].1 = (0..70_001u32).map(|i| (i % 251) as u8).collect();
    files[5].1[65_536] = 252;
    files[n - 1].1 = vec![[7, 255][choice(2)]];
    let props: Vec<(String, String)> = (0..n).map(|i| if i == 9 { ("prefix".into(), "p".repeat(300)) } else { (format!("k{i}{}", "q".repeat(if i == 2 { 260 } else { 0 })), "v".repeat(i)) }).collect();
    let mut w = WritablePbo::new();
    for (k, v) in &props {
        w.add_property(k.as_str(), v.as_str());
    }
    // in another order
    for i in 0..n {
        let f = &files[(i * 37 + 5) % n];
        w.add_file(f.0.as_str(), Cursor::new(f.1.clone())).unwrap();
    }
    let mut out = Vec::new();
    let sum = w.write(&mut out, true).unwrap();
    files.sort_by(|a, b| lower(&a.0).cmp(&lower(&b.0)));
    let mut pr = props.clone();
    let f = pr.remove(9);
    pr.insert(0, f);
    let want = Arch { vers: true, props: pr, files };
    check(out == serialise(&want), "bytes of an archive of many files");
    check(sum.as_bytes()[..] == out[out.len() - 20..], "returned checksum");
    let mut p = ReadablePbo::from(Cursor::new(out)).unwrap();
    check(p.files().len() == n && p.is_sorted().is_ok(), "entries of an archive of many files");
    check(p.properties().iter().map(|(k, v)| (k, v)).eq(want.props.iter().map(|(k, v)| (k, v))), "properties read back");
    for (name, d) in want.files.iter().filter(|f| f.1.len() > 257 || f.0.len() > 300 || f.1 == [255]) {
        check(read(&mut p, name).as_ref() == Some(d), "contents in an archive of many files");
        check(p.header(name).is_some_and(|h| h.size() as usize == d.len()), "size of an entry");
    }
    check(p.gen_checksum().unwrap() == sum, "recomputed checksum");
    reach("many");
}

fn history(n: usize) {
    const NAMES: [&str; 4] = ["b", "A.sqf", "c/d", "c\\d"];
    const KEYS: [&str; 3] = ["prefix", "k", "a"];
    let mut w: WritablePbo<Cursor<Vec<u8>>> = WritablePbo::new();
    let mut files: Vec<(String, Vec<u8>, u32)> = Vec::new();
    let mut props: Vec<(&str, String)> = Vec::new();
    let put = |files: &mut Vec<(String, Vec<u8>, u32)>, name: &str, d: &[u8], time: u32| -> Option<Vec<u8>> {
        let old = files.iter().position(|f| norm(&f.0) == norm(name)).map(|i| files.remove(i).1);
        files.push((norm(name), d.to_vec(), time));
        old
    };
    // an entry of another archive
    let foreign = {
        let mut o = Vec::new();
        entry(&mut o, b"A.sqf", 0, 1, 2, 3, 1);
        entry(&mut o, b"", 0, 0, 0, 0, 0);
        o.push(9);
        o.extend([0u8; 21]);
        ReadablePbo::from(Cursor::new(o)).unwrap().files().remove(0)
    };
    for i in 0..n {
        let d = vec![i as u8 + 1; [0, 1, 3][i % 3]];
        match choice(7) {
            0 => {
                let name = NAMES[choice(4)];
                let old = put(&mut files, name, &d, 0);
                let got = w.add_file(name, Cursor::new(d)).unwrap();
                check(got.map(|g| g.0.into_inner()) == old, "the replaced file is another one");
            }
            1 => {
                let own = flip();
                let (h, d) = if own { (Header::new_for_file("b".into(), d.len() as u32), d) } else { (foreign.clone(), vec![9]) };
                let old = put(&mut files, h.filename(), &d, h.timestamp());
                let got = w.add_file_with_header(h, Cursor::new(d)).unwrap();
                check(got.map(|g| g.0.into_inner()) == old, "the replaced file is another one");
            }
            2 => {
                let k = KEYS[choice(3)];
                let v = ["", "x", "\\y\\z\\"][choice(3)];
                let old = props.iter().position(|p| p.0 == k).map(|i| props.remove(i).1);
                props.push((k, v.trim_matches('\\').to_string()));
                check(w.add_property(k, v) == old, "the replaced property is another one");
            }
            3 => {
                let k = KEYS[choice(3)];
                let old = props.iter().position(|p| p.0 == k).map(|i| props.remove(i).1);
                check(w.remove_property(k) == old, "the removed property is another one");
            }
            4 => {
                let name = NAMES[choice(4)];
                let got = w.file(name).unwrap();
                let want = files.iter().find(|f| f.0 == norm(name));
                check(got.is_some() == want.is_some(), "a file is there exactly if it was added");
                if let (Some(f), Some(want)) = (got, want) {
                    // not to its end
                    let mut b = [0];
                    let n = f.read(&mut b).unwrap();
                    check(b[..n] == want.1[..n] && n == want.1.len().min(1), "another file is found");
                }
            }
            5 => {
                let mut out = Vec::new();
                w.write(&mut out, flip()).unwrap();
            }
            _ => (),
        }
        for k in KEYS {
            check(w.property(k) == props.iter().find(|p| p.0 == k).map(|p| &p.1), "a property is another one");
        }
        check(w.properties().len() == props.len() && w.files().len() == files.len(), "more or less than was put in");
    }
    let mut out = Vec::new();
    let sum = w.write(&mut out, true).unwrap();
    let mut again = Vec::new();
    check(w.write(&mut again, true).unwrap() == sum && again == out, "written twice it is another archive");
    check(sum.as_bytes()[..] == sha(&out[..out.len() - 21]), "checksum is not the SHA-1 of the archive");
    let hex: String = sum.as_bytes().iter().flat_map(|b| [b >> 4, b & 15]).map(|d| char::from_digit(u32::from(d), 16).unwrap()).collect();
    check(sum.hex() == hex, "the checksum is shown otherwise");
    check(Checksum::from_bytes(*sum.as_bytes()) == sum && Checksum::new().as_bytes() == &[0; 20] && sum.as_ref() == sum.as_bytes(), "a checksum is its bytes");
    let mut p = ReadablePbo::from(Cursor::new(out)).unwrap();
    check(p.files().len() == files.len() && p.is_sorted().is_ok(), "other entries, or not sorted");
    for (n, d, t) in &files {
        check(read(&mut p, n).as_ref() == Some(d), "entry contents");
        check(p.header(n).is_some_and(|h| h.timestamp() == *t && h.size() as usize == d.len()), "entry fields");
    }
    check(p.properties().len() == props.len(), "number of properties");
    for (k, v) in &props {
        check(p.properties().get(*k) == Some(v), "property read back");
        check(*k != "prefix" || p.properties().get_index(0).is_some_and(|q| q.0 == k), "the prefix is not first");
    }
    reach("history");
}
fn any(b: Vec<u8>) {
    let total = b.len();
    match ReadablePbo::from(Cursor::new(b)) {
        Ok(mut p) => {
            let heads = p.files();
            for hd in &heads {
                if let Ok(Some(mut f)) = p.file(hd.filename()) {
                    let mut v = Vec::new();
                    let _ = f.read_to_end(&mut v);
                    check(v.len() <= total, "more data than the archive has");
                }
            }
            let _ = p.is_sorted();
            let _ = p.gen_checksum();
            obs_u(heads.len() as u64);
            reach("accepted");
        }
        Err(_) => reach("rejected"),
    }
}
