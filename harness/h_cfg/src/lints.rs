//! The config lints against a reference over the generated tree.
use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::Processor;
use hemtt_workspace::Workspace;
use symrt::*;

/// a name and where it starts
type Name = (Vec<u8>, usize);
enum N {
    Entry(Name),
    /// no semicolon
    Open(Name),
    Ext(Name),
    Class(Name, Option<Name>, Vec<N>),
    Del,
}
type Found = Vec<(&'static str, usize)>;
struct Gen {
    src: Vec<u8>,
    budget: usize,
    kinds: usize,
    found: Found,
    fresh: usize,
}
fn lower(n: &[u8]) -> Vec<u8> {
    n.iter().map(u8::to_ascii_lowercase).collect()
}
impl Gen {
    fn put(&mut self, t: &[u8]) {
        self.src.extend(t);
    }
    fn name(&mut self) -> Name {
        let at = self.src.len();
        let n = vec![of([&b"aAb"[..], b"ab", b"aA"][param(2)])];
        self.put(&n);
        (n, at)
    }
    /// a name that collides with no other
    fn other(&mut self) -> Name {
        let at = self.src.len();
        let n = vec![b'z', b'0' + self.fresh as u8];
        self.fresh += 1;
        self.put(&n);
        (n, at)
    }
    fn nodes(&mut self) -> Vec<N> {
        let mut v = Vec::new();
        while self.budget > 0 && flip() {
            self.budget -= 1;
            let n = match choice(self.kinds) {
                0 => {
                    self.put(b"class ");
                    let n = self.name();
                    let p = if flip() {
                        self.put(b": ");
                        Some(self.name())
                    } else {
                        None
                    };
                    self.put(b"{");
                    let c = self.nodes();
                    self.put(b"};");
                    N::Class(n, p, c)
                }
                1 => {
                    self.put(b"class ");
                    let n = self.name();
                    self.put(b";");
                    N::Ext(n)
                }
                2 => {
                    let n = self.name();
                    self.put([&b"=1;"[..], b"[]={1};", b"[]+={};"][choice(3)]);
                    N::Entry(n)
                }
                3 => {
                    let n = self.other();
                    match choice(5) {
                        0 => {
                            self.put(b"={1};");
                            self.found.push(("L-C06", n.1));
                        }
                        1 => {
                            self.put(b" [] = ");
                            self.put([&b"1"[..], b"\"x\"", b"__EVAL(1)"][choice(3)]);
                            self.put(b";");
                            self.found.push(("L-C07", n.1));
                        }
                        2 => {
                            self.put(b" = ");
                            self.found.push(("L-C01", self.src.len()));
                            self.put([&b"true"[..], b"1.0.0", b"q w"][choice(3)]);
                            self.put(b";");
                        }
                        3 => {
                            self.put(b"[] = {1, ");
                            self.found.push(("L-C01", self.src.len()));
                            self.put(b"x, 2};");
                        }
                        _ => {
                            // all right
                            self.put([&b"=\"\xc3\xa9\";"[..], b"[]={{},{1,{\"\"}}};", b"=__EVAL(x);", b"= (1+2)*3;"][choice(4)]);
                        }
                    }
                    N::Entry(n)
                }
                4 => {
                    let n = self.other();
                    self.put(b"=1");
                    self.found.push(("L-C08", usize::MAX));
                    self.src.push(b'\n');
                    N::Open(n)
                }
                5 => {
                    self.put(b"delete ");
                    self.name();
                    self.put(b";");
                    N::Del
                }
                _ => {
                    self.put(b"class ");
                    let n = self.other();
                    self.put(b": ");
                    let p = self.name();
                    self.put(b";");
                    self.found.push(("L-C10", usize::MAX));
                    N::Class(n, Some(p), Vec::new())
                }
            };
            v.push(n);
        }
        v
    }
}
/// properties by their path: whether a class, where
fn duplicates(path: &[u8], nodes: &[N], seen: &mut Vec<(Vec<u8>, Vec<(bool, usize)>)>) {
    let mut add = |n: &Name, class: bool, seen: &mut Vec<(Vec<u8>, Vec<(bool, usize)>)>| {
        let p = [path, b".", &lower(&n.0)].concat();
        match seen.iter_mut().find(|(q, _)| *q == p) {
            Some((_, v)) => v.push((class, n.1)),
            None => seen.push((p, vec![(class, n.1)])),
        }
    };
    for n in nodes {
        match n {
            N::Entry(n) | N::Open(n) => add(n, false, seen),
            N::Class(n, _, c) => {
                duplicates(&[path, b".", &lower(&n.0)].concat(), c, seen);
                add(n, true, seen);
            }
            _ => {}
        }
    }
}
fn classes(nodes: &[N], found: &mut Found) {
    let mut seen: Vec<(Vec<u8>, usize, bool)> = Vec::new();
    for n in nodes {
        let name = match n {
            N::Ext(n) => n,
            N::Class(n, _, c) => {
                classes(c, found);
                n
            }
            _ => continue,
        };
        match seen.iter_mut().find(|s| s.0 == lower(&name.0)) {
            Some(s) => s.2 = true,
            None => seen.push((lower(&name.0), name.1, false)),
        }
    }
    found.extend(seen.iter().filter(|s| s.2).map(|s| ("L-C03", s.1)));
}
/// parents that are nowhere before, or written in another case than where they were last defined
fn parents(nodes: &[N], defined: &mut Vec<Vec<u8>>, found: &mut Found) {
    for n in nodes {
        match n {
            N::Ext(n) => defined.push(lower(&n.0)),
            N::Class(n, p, c) => {
                if let Some(p) = p {
                    if lower(&p.0) != lower(&n.0) && !defined.contains(&lower(&p.0)) {
                        found.push(("L-C04", p.1));
                    }
                }
                defined.push(lower(&n.0));
                parents(c, defined, found);
            }
            _ => {}
        }
    }
}
fn cases(nodes: &[N], defined: &mut Vec<(Vec<u8>, Vec<u8>)>, found: &mut Found) {
    for n in nodes {
        match n {
            N::Ext(n) => {
                if !defined.iter().any(|d| d.0 == lower(&n.0)) {
                    defined.push((lower(&n.0), n.0.clone()));
                }
            }
            N::Class(n, p, c) => {
                if let Some(p) = p {
                    let other = if lower(&p.0) == lower(&n.0) { Some(&n.0) } else { defined.iter().rev().find(|d| d.0 == lower(&p.0)).map(|d| &d.1) };
                    if other.is_some_and(|o| *o != p.0) {
                        found.push(("L-C05", p.1));
                    }
                }
                defined.push((lower(&n.0), n.0.clone()));
                cases(c, defined, found);
            }
            _ => {}
        }
    }
}
/// the lints on this text: identifiers and places
fn lint(src: &[u8]) -> Option<Found> {
    let w = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).unwrap();
    let p = w.join("config.cpp").unwrap();
    p.create_file().unwrap().write_all(src).unwrap();
    let p = Processor::run(&p).ok()?;
    let r = hemtt_config::parse(None, &p).ok()?;
    Some(
        r.codes()
            .iter()
            .map(|c| {
                let Some(d) = c.diagnostic() else { fail("a lint without a diagnostic") };
                let at = d.labels[0].to_codespan().range.start;
                (c.ident(), if matches!(c.ident(), "L-C08" | "L-C10") { usize::MAX } else { at })
            })
            .collect(),
    )
}
fn compare(src: &[u8], want: &Found) {
    let Some(got) = lint(src) else { fail("a config that parses is rejected") };
    reach(if want.is_empty() { "clean" } else { "reported" });
    for w in want {
        check(got.contains(w), "a lint does not report what it should");
    }
    for g in &got {
        check(want.contains(g), "a lint reports what is right, or the wrong place");
    }
}
fn trees(budget: usize, kinds: usize) {
    let mut g = Gen { src: Vec::new(), budget, kinds, found: Vec::new(), fresh: 0 };
    if flip() {
        g.put(b"#define NOTHING 1\n/* \xc3\xa9 */\n");
    }
    let t = g.nodes();
    judge(g, &t);
}
fn judge(mut g: Gen, t: &[N]) {
    g.src.push(b'\n');
    let mut seen = Vec::new();
    duplicates(b"", t, &mut seen);
    let mut found = g.found;
    for (_, v) in seen {
        if v.len() > 1 && !v.iter().all(|(class, _)| *class) {
            found.push(("L-C02", v.last().unwrap().1));
        }
    }
    classes(t, &mut found);
    parents(t, &mut Vec::new(), &mut found);
    cases(t, &mut Vec::new(), &mut found);
    compare(&g.src, &found);
}
/// classes with an entry or a class with an entry, opened again
fn reopened(n: usize) {
    let mut g = Gen { src: Vec::new(), budget: 0, kinds: 0, found: Vec::new(), fresh: 0 };
    let mut t = Vec::new();
    for _ in 0..n {
        g.put(b"class ");
        let outer = g.name();
        g.put(b"{");
        let inner = if flip() {
            g.put(b"class ");
            let n = g.name();
            g.put(b"{");
            Some(n)
        } else {
            None
        };
        let e = g.name();
        g.put(b"=1;");
        let mut c = vec![N::Entry(e)];
        if let Some(n) = inner {
            g.put(b"};");
            c = vec![N::Class(n, None, c)];
        }
        g.put(b"};");
        t.push(N::Class(outer, None, c));
    }
    judge(g, &t);
}
/// classes declared, defined, used as parents and opened again, over names that differ in case
fn sequence(n: usize, inner: bool) {
    let mut g = Gen { src: Vec::new(), budget: 0, kinds: 0, found: Vec::new(), fresh: 0 };
    let mut t = Vec::new();
    for i in 0..n {
        g.put(b"class ");
        let kind = choice(if inner { 4 } else { 3 });
        if kind == 0 {
            let b = g.other();
            g.put(b": ");
            let p = g.name();
            g.put(b"{};");
            t.push(N::Class(b, Some(p), Vec::new()));
            continue;
        }
        let c = vec![if i == 0 { b'a' } else { [b'a', b'A'][choice(2)] }];
        let name = (c.clone(), g.src.len());
        g.put(&c);
        match kind {
            1 => {
                g.put(b";");
                t.push(N::Ext(name));
            }
            2 => {
                g.put(b"{};");
                t.push(N::Class(name, None, Vec::new()));
            }
            _ => {
                g.put(b"{");
                let mut v = Vec::new();
                for _ in 0..2 {
                    g.put(b"class ");
                    let n = g.name();
                    let ext = flip();
                    g.put(if ext { b";" } else { b"{};" });
                    v.push(if ext { N::Ext(n) } else { N::Class(n, None, Vec::new()) });
                }
                g.put(b"};");
                t.push(N::Class(name, None, v));
            }
        }
    }
    judge(g, &t);
}
/// magazines of magazine wells
fn magazines() {
    let mut src = b"class CfgMagazineWells{class w{m[]={".to_vec();
    let mut found = Found::new();
    let listed: Vec<(Vec<u8>, usize)> = (0..len(0, 2))
        .map(|i| {
            if i > 0 {
                src.push(b',');
            }
            let t = text(b"pq", len(0, 2));
            let at = src.len();
            src.push(b'"');
            src.extend(&t);
            src.push(b'"');
            (t, at)
        })
        .collect();
    src.extend(b"};};};\n");
    let there = choice(3);
    let mut defined = Vec::new();
    if there > 0 {
        src.extend([&b"class CfgMagazines{"[..], b"class cfgmagazines{"][choice(2)]);
        for _ in 1..there {
            src.extend(b"class ");
            let t = text(b"pq", len(1, 2));
            src.extend(&t);
            src.extend(b"{};");
            defined.push(t);
        }
        src.extend(b"};\n");
    }
    if there > 0 {
        for (t, at) in &listed {
            if !defined.contains(t) {
                found.push(("L-C09", *at));
            }
        }
    }
    compare(&src, &found);
}

pub fn run(h: u32) {
    match h {
        0 => trees(param(0), param(1)),
        2 => reopened(param(0)),
        3 => sequence(param(0), param(1) == 1),
        _ => magazines(),
    }
}
