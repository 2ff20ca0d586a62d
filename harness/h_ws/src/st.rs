//! Reading, sorting and writing stringtables.
use crate::wsp::discovered;
use hemtt_stringtable::{
    analyze::{lint_all, lints::_01_sorted::StringtableData},
    Package, Project,
};
use symrt::*;

const LANGS: [&str; 25] = [
    "Original", "English", "Czech", "French", "Spanish", "Italian", "Polish", "Portuguese", "Russian", "German", "Korean", "Japanese", "Chinese", "Chinesesimp", "Turkish", "Swedish", "Slovak", "Serbocroatian", "Norwegian",
    "Icelandic", "Hungarian", "Greek", "Finnish", "Dutch", "",
];
#[derive(Clone, Default)]
struct K {
    id: Vec<u8>,
    before: Option<u8>,
    /// language, text, comment before it
    langs: Vec<(usize, Vec<u8>, Option<u8>)>,
    last: Option<u8>,
}
#[derive(Clone, Default)]
struct Pk {
    name: Vec<u8>,
    before: Option<u8>,
    keys: Vec<K>,
    conts: Vec<Pk>,
    last: Option<u8>,
}
struct Gen {
    comments: u8,
    blank: bool,
    style: usize,
}
impl Gen {
    fn comment(&mut self, yes: bool) -> Option<u8> {
        if yes && flip() {
            self.comments += 1;
            return Some(b'0' + self.comments);
        }
        None
    }
}
fn indent(out: &mut Vec<u8>, n: usize, style: usize) {
    match style {
        0 => out.extend(vec![b' '; 4 * n]),
        1 => out.extend(vec![b'\t'; n]),
        _ => {}
    }
}
fn note(out: &mut Vec<u8>, c: Option<u8>, n: usize, g: (bool, usize)) {
    if let Some(c) = c {
        indent(out, n, g.1);
        out.extend(b"<!-- c");
        out.push(c);
        out.extend(b" <Key ID=\"n\"> -->\n");
        if g.0 {
            out.push(b'\n');
        }
    }
}
fn line(out: &mut Vec<u8>, n: usize, style: usize, parts: &[&[u8]]) {
    indent(out, n, style);
    for p in parts {
        out.extend(*p);
    }
    out.push(b'\n');
}
fn package(out: &mut Vec<u8>, p: &Pk, tag: &[u8], n: usize, g: (bool, usize), case: usize) {
    note(out, p.before, n, g);
    if p.keys.is_empty() && p.conts.is_empty() && p.last.is_none() {
        line(out, n, g.1, &[b"<", tag, b" name=\"", &p.name, b"\"></", tag, b">"]);
        return;
    }
    line(out, n, g.1, &[b"<", tag, b" name=\"", &p.name, b"\">"]);
    for k in &p.keys {
        note(out, k.before, n + 1, g);
        if k.langs.is_empty() && k.last.is_none() && case == 0 {
            line(out, n + 1, g.1, &[b"<Key ID=\"", &k.id, b"\"></Key>"]);
            continue;
        }
        line(out, n + 1, g.1, &[b"<Key ID=\"", &k.id, b"\">"]);
        for (l, t, c) in &k.langs {
            note(out, *c, n + 2, g);
            let name = match case {
                0 => LANGS[*l].to_string(),
                1 => LANGS[*l].to_ascii_lowercase(),
                _ => LANGS[*l].to_ascii_uppercase(),
            };
            line(out, n + 2, g.1, &[b"<", name.as_bytes(), b">", t, b"</", name.as_bytes(), b">"]);
        }
        note(out, k.last, n + 2, g);
        line(out, n + 1, g.1, &[b"</Key>"]);
    }
    for c in &p.conts {
        package(out, c, b"Container", n + 1, g, case);
    }
    note(out, p.last, n + 1, g);
    line(out, n, g.1, &[b"</", tag, b">"]);
}
fn table(v: &[Pk], name: &[u8], g: (bool, usize), case: usize, end: Option<u8>) -> Vec<u8> {
    let mut out = b"<?xml version=\"1.0\" encoding=\"utf-8\"?>\n".to_vec();
    line(&mut out, 0, g.1, &[b"<Project name=\"", name, b"\">"]);
    for p in v {
        package(&mut out, p, b"Package", 1, g, case);
    }
    line(&mut out, 0, g.1, &[b"</Project>"]);
    note(&mut out, end, 0, g);
    out
}
fn sort(v: &mut [Pk], langs: bool) {
    if !langs {
        v.sort_by(|a, b| a.name.cmp(&b.name));
    }
    for p in v {
        if !langs {
            p.keys.sort_by(|a, b| a.id.cmp(&b.id));
        }
        for k in &mut p.keys {
            k.langs.sort_by_key(|l| l.0);
        }
        sort(&mut p.conts, langs);
    }
}
fn read(src: &[u8]) -> Project {
    match Project::from_reader(src) {
        Ok(p) => p,
        Err(_) => fail("a stringtable is rejected"),
    }
}
fn written(p: &Project) -> Vec<u8> {
    let mut s = String::new();
    check(p.to_writer(&mut s).is_ok(), "a stringtable cannot be written");
    s.into_bytes()
}
fn count(p: &Pk, lang: Option<usize>) -> u32 {
    p.keys.iter().filter(|k| lang.map_or(true, |l| k.langs.iter().any(|x| x.0 == l))).count() as u32 + p.conts.iter().map(|c| count(c, lang)).sum::<u32>()
}
fn totals(got: &Package, p: &Pk) {
    let t = got.totals();
    check(got.name().as_bytes() == p.name, "a package is another one");
    check(t.total() == count(p, None), "the number of keys is another");
    let f: [u32; 24] = [
        t.original(), t.english(), t.czech(), t.french(), t.spanish(), t.italian(), t.polish(), t.portuguese(), t.russian(), t.german(), t.korean(), t.japanese(), t.chinese(), t.chinesesimp(), t.turkish(), t.swedish(), t.slovak(),
        t.serbocroatian(), t.norwegian(), t.icelandic(), t.hungarian(), t.greek(), t.finnish(), t.dutch(),
    ];
    for (i, f) in f.iter().enumerate() {
        check(*f == count(p, Some(i)), "the number of translations is another");
    }
    for (c, w) in got.containers().iter().zip(&p.conts) {
        totals(c, w);
    }
}
fn compare(v: &mut [Pk], name: &[u8], g: (bool, usize), case: usize, end: Option<u8>) {
    let src = table(v, name, g, case, end);
    let mut p = read(&src);
    check(p.packages().len() == v.len(), "packages are lost");
    for (p, w) in p.packages().iter().zip(v.iter()) {
        totals(p, w);
    }
    let data: StringtableData = {
        let Some(w) = discovered(&[("stringtable.xml".to_string(), src.clone())]) else { fail("no workspace") };
        (p.clone(), w.join("stringtable.xml").unwrap(), String::from_utf8(src.clone()).unwrap())
    };
    // only the languages
    let mut langs = v.to_vec();
    sort(&mut langs, true);
    check(written(&p) == table(&langs, name, (false, 0), 0, end), "a written stringtable is another one");
    p.sort();
    sort(v, false);
    let want = table(v, name, (false, 0), 0, end);
    let got = written(&p);
    check(got == want, "a sorted stringtable is another one");
    for (p, w) in p.packages().iter().zip(v.iter()) {
        totals(p, w);
    }
    let mut again = read(&got);
    check(written(&again) == got, "reading a written stringtable changes it");
    again.sort();
    check(written(&again) == got, "sorting a sorted stringtable changes it");
    reach(if src == want { "sorted" } else { "unsorted" });
    let codes = lint_all(&vec![data], None);
    check(codes.len() == usize::from(src != want), "an unsorted stringtable is reported exactly if it is");
    check(codes.iter().all(|c| c.ident() == "L-L01" && c.diagnostic().is_some()), "another lint is reported");
}
/// packages, containers and keys in any order
fn orders(n: usize, names: usize) {
    let mut v = Vec::new();
    let mut left = n;
    let mut more = |yes: bool| {
        let m = left > 0 && (yes || flip());
        left -= usize::from(m);
        m
    };
    let mut used: Vec<Vec<u8>> = Vec::new();
    let mut new = || {
        let t = text(b"abA", len(1, names));
        used.iter().for_each(|u| assume(*u != t));
        used.push(t.clone());
        t
    };
    let key = |id: Vec<u8>| K { id, langs: vec![(1, b"t".to_vec(), None)], ..K::default() };
    while more(v.is_empty()) {
        let mut p = Pk { name: new(), ..Pk::default() };
        while more(false) {
            if flip() {
                p.keys.push(key(new()));
            } else {
                let mut c = Pk { name: new(), ..Pk::default() };
                while more(false) {
                    c.keys.push(key(new()));
                }
                p.conts.push(c);
            }
        }
        v.push(p);
    }
    compare(&mut v, b"p", (false, [0, 1][choice(2)]), 0, None);
}
/// any two languages of a key
fn languages() {
    let (a, b) = (choice(24), choice(24));
    assume(a != b);
    let k = |id: &[u8], l: &[usize]| K { id: id.to_vec(), langs: l.iter().map(|l| (*l, b"t".to_vec(), None)).collect(), ..K::default() };
    let mut v = vec![Pk { name: b"p".to_vec(), keys: vec![k(b"x", &[a, b]), k(b"y", &[a])], ..Pk::default() }];
    compare(&mut v, b"p", (false, 0), choice(3), None);
}
/// comments anywhere
fn comments(n: usize) {
    let mut g = Gen { comments: 0, blank: flip(), style: choice(3) };
    let mut v = Vec::new();
    // the order of the names is not the sorted one
    for i in 0..n {
        let s = [b'b' - i as u8];
        let before = g.comment(true);
        let mut keys = Vec::new();
        for j in 0..2 {
            keys.push(K {
                id: [&s[..], &[b'1' - j]].concat(),
                before: g.comment(true),
                langs: vec![(9, b"a &amp; b".to_vec(), g.comment(j == 0)), (1, b"x".to_vec(), g.comment(j == 0))],
                last: g.comment(i == 0),
            });
        }
        v.push(Pk { name: s.to_vec(), before, keys, conts: Vec::new(), last: g.comment(true) });
    }
    let end = g.comment(true);
    let (b, s) = (g.blank, g.style);
    compare(&mut v, b"p", (b, s), choice(2), end);
}
/// texts and names are kept as they are written
fn texts(n: usize) {
    const T: [&str; 12] = ["a", "&amp;", "&lt;b/&gt;", "&quot;", "\"", "'", "&", "\u{e9}", "&#10;", "\n  ", ";", "amp;"];
    const A: [&str; 8] = ["a", "&amp;", "&lt;", "&quot;", "'", "\u{e9}", ";", " x"];
    // white space at the ends of a text has no meaning here
    let mut t = b"<".to_vec();
    t.clear();
    for i in 0..len(0, n) {
        let k = choice(T.len());
        assume(k != 9 || i > 0);
        t.extend(T[k].as_bytes());
    }
    assume(!t.ends_with(b" "));
    let mut a = |f: bool| {
        let mut s = b"n".to_vec();
        if f {
            s.extend(A[choice(A.len())].as_bytes());
        }
        s
    };
    let which = choice(4);
    let (id, pn, name, cn) = (a(which == 0), a(which == 1), a(which == 2), a(which == 3));
    let k = K { id, before: Some(b'1'), langs: vec![(9, t.clone(), Some(b'2')), (1, t, None)], last: None };
    let c = Pk { name: cn, keys: vec![k.clone()], ..Pk::default() };
    let mut v = vec![Pk { name: pn, keys: vec![k], conts: vec![c], ..Pk::default() }];
    compare(&mut v, &name, (false, 0), 0, None);
}
/// any pieces: read or refused
fn any(n: usize) {
    const P: [&str; 16] = ["<Project name=\"a\">", "</Project>", "<Package name=\"b\">", "</Package>", "<Key ID=\"c\">", "</Key>", "<English>", "</English>", "<Container name=\"d\">", "</Container>", "<!-- x", "-->", "\n", "&amp;", "<", "\u{e9}"];
    let mut s = String::from(["", "<Project name=\"a\"><Package name=\"b\">", "<Project name=\"a\">\n<Package name=\"b\">\n<Key ID=\"c\">\n<!-- y -->"][choice(3)]);
    for _ in 0..n {
        s.push_str(P[choice(P.len())]);
    }
    if flip() {
        s.push_str("</Key></Package></Project>");
    }
    if let Ok(mut p) = Project::from_reader(s.as_bytes()) {
        reach("read");
        p.sort();
        let once = written(&p);
        let _ = Project::from_reader(&once[..]);
    } else {
        reach("refused");
    }
}
/// elements with nothing but a comment in them
fn empty() {
    let mut g = Gen { comments: 0, blank: flip(), style: choice(3) };
    let mut v = Vec::new();
    for i in 0..len(1, 2) {
        let s = [b'b' - i as u8];
        let keys = match choice(3) {
            0 => Vec::new(),
            k => vec![K { id: s.to_vec(), before: g.comment(true), langs: if k == 1 { Vec::new() } else { vec![(1, b"x".to_vec(), None)] }, last: g.comment(true) }],
        };
        let mut conts = Vec::new();
        if flip() {
            conts.push(Pk { name: [b"c", &s[..]].concat(), before: g.comment(true), last: g.comment(true), ..Pk::default() });
        }
        v.push(Pk { name: s.to_vec(), before: None, keys, conts, last: g.comment(true) });
    }
    let (b, s) = (g.blank, g.style);
    compare(&mut v, b"p", (b, s), 0, None);
}
/// many packages, containers, keys and translations, long names and texts
fn many() {
    let n = [17usize, 40, 130][choice(3)];
    let key = |i: usize| K {
        id: format!("k{}{}", (i * 7) % n, "x".repeat(i % 5 * 70)).into_bytes(),
        before: None,
        langs: (0..24 - i % 24).rev().filter(|l| n < 100 || l % 9 == 1).map(|l| (l, vec![b't'; 10 * (i % 40)], None)).collect(),
        last: None,
    };
    let mut v = match choice(3) {
        // keys
        0 => vec![Pk { name: b"p".to_vec(), keys: (0..n).map(key).collect(), ..Pk::default() }],
        // packages
        1 => (0..n).map(|i| Pk { name: format!("p{}", (i * 7) % n).into_bytes(), keys: vec![key(0), key(1)], ..Pk::default() }).collect(),
        // containers in containers
        _ => {
            let mut c = Pk { name: b"c".to_vec(), keys: vec![key(1)], ..Pk::default() };
            for i in 0..n.min(20) {
                c = Pk { name: format!("c{i}").into_bytes(), keys: vec![key(i)], conts: vec![c, Pk { name: b"a".to_vec(), keys: vec![key(2)], ..Pk::default() }], ..Pk::default() };
            }
            vec![c]
        }
    };
    compare(&mut v, b"p", (false, 0), 0, None);
}
/// the same comments, texts and names in several keys; many escapes in a line
fn twins() {
    let n = [1usize, 12][choice(2)];
    let same = |yes: bool| yes.then_some(b'1');
    let last = same(flip());
    let mut v = Vec::new();
    for p in [&b"b"[..], b"a"] {
        let t = "&amp;&lt;&quot;&".repeat(n).into_bytes();
        let key = |id: u8| K { id: [p, &[id]].concat(), before: None, langs: vec![(9, t.clone(), same(flip())), (1, t.clone(), same(flip()))], last };
        let keys = vec![key(b'2'), key(b'1')];
        v.push(Pk { name: p.to_vec(), keys, ..Pk::default() });
    }
    compare(&mut v, b"p", (false, 0), 0, None);
}
pub fn run(h: u32) {
    match h {
        7 => twins(),
        6 => many(),
        5 => empty(),
        0 => orders(param(0), param(1)),
        1 => languages(),
        2 => comments(param(0)),
        3 => texts(param(0)),
        _ => any(param(0)),
    }
}
