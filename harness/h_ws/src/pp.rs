use crate::refpp::{lex, strip, Bad, Macros};
use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::Processor;
use hemtt_workspace::{reporting::Processed, Workspace, WorkspacePath};
use symrt::*;

pub fn workspace(files: &[(&str, &[u8])]) -> WorkspacePath {
    let w = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).unwrap();
    for (n, d) in files {
        if let Some((d, _)) = n.rsplit_once('/') {
            w.vfs().join(d).unwrap().create_dir_all().unwrap();
        }
        let p = w.join(n).unwrap();
        let mut f = p.create_file().unwrap();
        f.write_all(d).unwrap();
    }
    w
}
/// the preprocessed first file, or the identifier of the error
pub fn process(files: &[(&str, &[u8])]) -> Result<Processed, &'static str> {
    let w = workspace(files);
    Processor::run(&w.join(files[0].0).unwrap()).map_err(|(_, e)| e.get_code().map_or("other", |c| c.ident()))
}
/// the same, and everything the user would be shown
fn process_shown(files: &[(&str, &[u8])]) -> bool {
    let w = workspace(files);
    match Processor::run(&w.join(files[0].0).unwrap()) {
        Ok(p) => {
            for c in p.warnings() {
                let _ = c.diagnostic();
            }
            true
        }
        Err((_, e)) => {
            if let Some(c) = e.get_code() {
                check(c.diagnostic().is_some(), "an error without a diagnostic");
            }
            false
        }
    }
}
fn filled(b: &[u8]) -> Vec<Vec<u8>> {
    b.split(|c| *c == b'\n').filter(|l| !l.is_empty()).map(<[u8]>::to_vec).collect()
}

/// conditionals: any sequence of lines
fn conditionals(n: usize, kinds: usize) {
    let mut src = Vec::new();
    // (enclosing lines are read, this branch is read, `#else` was seen)
    let mut st: Vec<(bool, bool, bool)> = Vec::new();
    let mut def: [Option<u8>; 2] = [None, None];
    let mut want: Vec<Vec<u8>> = Vec::new();
    let (mut bad, mut stray) = (false, false);
    for i in 0..n {
        let on = st.last().map_or(true, |s| s.0 && s.1);
        let k = choice(kinds);
        let name = if k == 1 || k == 2 || k >= 5 { choice(2) } else { 0 };
        let nm = [b'A' + name as u8];
        match k {
            0 => {
                let t = [b'p' + i as u8];
                src.extend(t);
                if on {
                    want.push(t.to_vec());
                }
            }
            1 | 2 => {
                src.extend(if k == 1 { &b"#ifdef "[..] } else { b"#ifndef " });
                src.extend(nm);
                st.push((on, def[name].is_some() == (k == 1), false));
            }
            3 => {
                src.extend(b"#else");
                match st.last_mut() {
                    None => bad = true,
                    Some(s) if s.2 => bad = true,
                    Some(s) => {
                        s.1 = !s.1;
                        s.2 = true;
                    }
                }
            }
            4 => {
                src.extend(b"#endif");
                if st.pop().is_none() {
                    stray = true;
                }
            }
            5 => {
                src.extend(b"#define ");
                src.extend(nm);
                src.push(b' ');
                let d = range(b'0', b'1');
                src.push(d);
                if on {
                    def[name] = Some(d);
                }
            }
            6 => {
                src.extend(b"#if ");
                src.extend(nm);
                match def[name] {
                    Some(d) => st.push((on, d == b'1', false)),
                    None => {
                        if on {
                            bad = true;
                        }
                        st.push((on, false, false));
                    }
                }
            }
            7 => {
                src.extend(b"#undef ");
                src.extend(nm);
                if on {
                    def[name] = None;
                }
            }
            _ => {
                src.extend(b"#nothing ");
                if on {
                    bad = true;
                }
            }
        }
        src.push(b'\n');
        if bad {
            break;
        }
    }
    let r = process(&[("t.hpp", &src)]);
    if stray {
        // what a surplus #endif does is not documented
        return;
    }
    if bad || !st.is_empty() {
        reach("rejected");
        check(r.is_err(), "an ill-formed conditional is accepted");
        return;
    }
    reach("accepted");
    match r {
        Ok(p) => check(filled(p.as_str().as_bytes()) == want, "the wrong branches are read"),
        Err(_) => fail("well-formed conditionals are rejected"),
    }
}

/// a number of one of four shapes; its text and its value times ten
fn number() -> (Vec<u8>, i32) {
    let shape = choice(4);
    let a = range(b'0', b'9');
    let b = if shape < 2 { b'0' } else { range(b'0', b'9') };
    let (x, y) = (i32::from(a - b'0'), i32::from(b - b'0'));
    match shape {
        0 => (vec![a], x * 10),
        1 => (vec![b'-', a], -x * 10),
        2 => (vec![a, b'.', b], x * 10 + y),
        _ => (vec![a, b], (x * 10 + y) * 10),
    }
}
fn comparison() {
    let (l, lv) = number();
    let (r, rv) = number();
    let op = choice(6);
    let mut src = Vec::new();
    let (lm, rm) = (flip(), flip());
    if lm {
        src.extend(b"#define LEFT ");
        src.extend(&l);
        src.push(b'\n');
    }
    if rm {
        src.extend(b"#define RIGHT ");
        src.extend(&r);
        src.push(b'\n');
    }
    src.extend(b"#if ");
    src.extend(if lm { &b"LEFT"[..] } else { &l });
    src.extend([&b" == "[..], b" != ", b" > ", b" >= ", b" < ", b" <= "][op]);
    src.extend(if rm { &b"RIGHT"[..] } else { &r });
    src.extend(b"\ny\n#else\nn\n#endif\n");
    let yes = match op {
        0 => l == r,
        1 => l != r,
        2 => lv > rv,
        3 => lv >= rv,
        4 => lv < rv,
        _ => lv <= rv,
    };
    match process(&[("t.hpp", &src)]) {
        Ok(p) => {
            reach(if yes { "yes" } else { "no" });
            check(filled(p.as_str().as_bytes()) == vec![vec![if yes { b'y' } else { b'n' }]], "the comparison is decided wrongly");
        }
        Err(_) => fail("a comparison is rejected"),
    }
}

fn compare(src: &[u8], want: Result<Vec<u8>, Bad>, redefined: bool) {
    let r = process(&[("t.hpp", src)]);
    match want {
        Err(Bad::Unspecified) => {}
        Err(Bad::Error) => {
            reach("rejected");
            check(r.is_err(), "a wrong use of a macro is accepted");
        }
        Ok(w) => match r {
            Err(_) => fail("a right use of macros is rejected"),
            Ok(p) => {
                reach("expanded");
                let got = p.as_str().as_bytes();
                let got: Vec<u8> = got.iter().copied().filter(|c| *c != b'\n').collect();
                let w: Vec<u8> = w.into_iter().filter(|c| *c != b'\n').collect();
                check(got == w, "the wrong expansion");
                check(p.warnings().iter().any(|c| c.ident() == "PW1") == redefined, "redefinitions are not reported exactly");
            }
        },
    }
}
/// object macros: definitions with arbitrary short bodies, one line of use
fn objects(defs: usize, body: usize, use_: usize) {
    let mut m = Macros::default();
    let mut src = Vec::new();
    let mut redefined = false;
    let n = len(1, defs);
    for _ in 0..n {
        let name = [of(b"AB")];
        if flip() {
            src.extend(b"#undef ");
            src.extend(name);
            m.undef(&name);
        } else {
            src.extend(b"#define ");
            src.extend(name);
            src.push(b' ');
            let b = text(b"ABx+ \"", len(1, body));
            assume(b[0] != b' ');
            src.extend(&b);
            match lex(&b) {
                Ok(t) => redefined |= m.define(&name, None, t),
                Err(_) => return,
            }
        }
        src.push(b'\n');
    }
    let u = text(b"ABx+ \"", len(1, use_));
    src.extend(&u);
    src.push(b'\n');
    compare(&src, m.line(&u), redefined);
}
fn atoms(list: &[&[u8]], n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.extend(list[choice(list.len())]);
    }
    v
}
/// function macros: F(p), G(p,q) and A with bodies of pieces, one call
fn functions(fb: usize, gb: usize, ab: usize, use_: usize, named: bool) {
    const F: &[&[u8]] = &[b"p", b"#p", b"p##p", b"x", b"G(p,x)", b"\"p\"", b"A", b" ", b"F(p)", b"p##_##x", b"xp"];
    const G: &[&[u8]] = &[b"q", b"#q", b"p##q", b"F(p)", b"x", b"A"];
    const A: &[&[u8]] = &[b"x", b"F(y)", b"G(x,F(y))", b"F", b"A", b"G(A,A)", b"F(A)"];
    const U: &[&[u8]] = &[b"F(", b"G(", b")", b",", b"x", b"A", b"\"", b"(", b"F", b" "];
    let mut m = Macros::default();
    // the parameter may have the name of a macro
    let p = if named { b'A' } else { b'p' };
    let mut src = [b"#define F(", &[p][..], b") "].concat();
    let fbody: Vec<u8> = atoms(F, fb).into_iter().map(|c| if c == b'p' { p } else { c }).collect();
    assume(fbody[0] != b' ');
    src.extend(&fbody);
    let gbody = if gb > 0 { atoms(G, gb) } else { b"q##p#q".to_vec() };
    src.extend(b"\n#define G(p,q) ");
    src.extend(&gbody);
    let abody = if ab > 0 { atoms(A, ab) } else { b"y".to_vec() };
    src.extend(b"\n#define A ");
    src.extend(&abody);
    src.push(b'\n');
    let (Ok(f), Ok(g), Ok(a)) = (lex(&fbody), lex(&gbody), lex(&abody)) else { return };
    m.define(b"F", Some(vec![vec![p]]), f);
    m.define(b"G", Some(vec![b"p".to_vec(), b"q".to_vec()]), g);
    m.define(b"A", None, a);
    let u = match use_ {
        0 => [&b"F(x)"[..], b"F(A)", b"F(G(x,A))", b"G(F(x),\"A,\")", b"A", b"x F(F(x))F(y)", b"F(\"x\n,A)\")"][choice(7)].to_vec(),
        n => {
            let mut u = [&b"F("[..], b"G("][choice(2)].to_vec();
            u.extend(atoms(U, n));
            u.push(b')');
            u
        }
    };
    src.extend(&u);
    src.push(b'\n');
    compare(&src, m.line(&u), false);
}
/// __LINE__, __COUNTER__, __COUNTER_RESET__ and the file names on any sequence of lines
fn builtins(n: usize) {
    const FILES: &[(&str, &str)] = &[("t.hpp", "t"), ("a/t.inc.hpp", "t.inc"), ("a/b.c/u.hpp", "u")];
    let (file, short) = FILES[choice(FILES.len())];
    let mut src = b"#define L __LINE__\n#define ID(p) p\n#define TWO(p) p-p\n".to_vec();
    let mut line = 3;
    let mut counter = 0;
    let mut want: Vec<Vec<u8>> = Vec::new();
    for _ in 0..n {
        line += 1;
        let mut num = |v: usize| want.push(v.to_string().into_bytes());
        match choice(12) {
            0 => {
                src.extend(b"__LINE__");
                num(line);
            }
            1 => {
                src.extend(b"L");
                num(line);
            }
            2 => {
                src.extend(b"ID(__LINE__)");
                num(line);
            }
            3 => {
                src.extend(b"__COUNTER__");
                num(counter);
                counter += 1;
            }
            4 => {
                src.extend(b"TWO(__COUNTER__)");
                want.push(format!("{counter}-{counter}").into_bytes());
                counter += 1;
            }
            5 => {
                src.extend(b"__COUNTER_RESET__");
                counter = 0;
            }
            6 => {
                src.extend(b"/* one\ntwo */L");
                line += 1;
                num(line);
            }
            7 => {
                src.extend(b"\"__LINE__\"");
                want.push(b"\"__LINE__\"".to_vec());
            }
            8 => {
                src.extend(b"__FILE__");
                want.push(format!("\"\\{}\"", file.replace('/', "\\")).into_bytes());
            }
            9 => {
                src.extend(b"__FILE_NAME__");
                want.push(file.rsplit('/').next().unwrap().as_bytes().to_vec());
            }
            10 => {
                src.extend(b"__FILE_SHORT__");
                want.push(short.as_bytes().to_vec());
            }
            _ => {
                src.extend(b"z\\\nL");
                line += 1;
                let mut v = b"z".to_vec();
                v.extend(line.to_string().into_bytes());
                want.push(v);
            }
        }
        src.push(b'\n');
    }
    match process(&[(file, &src)]) {
        Ok(p) => {
            reach("expanded");
            check(filled(p.as_str().as_bytes()) == want, "a built-in macro has the wrong value");
        }
        Err(_) => fail("a built-in macro is rejected"),
    }
}

/// text without directives and macros
fn passthrough(n: usize, alphabet: &[u8]) {
    let mut src = text(alphabet, n);
    src.extend(b"\nend\n");
    let want = strip(&src);
    let r = process(&[("t.hpp", &src)]);
    if let Some(w) = want {
        match r {
            Ok(p) => {
                reach("kept");
                check(p.as_str().as_bytes() == &w[..], "text is not kept");
            }
            Err(_) => fail("plain text is rejected"),
        }
    }
}
/// the same with longer pieces
fn passthrough_pieces(n: usize) {
    const P: &[&[u8]] = &[
        b"//", b"/*", b"*/", b"\"", b"'", b"\n", b"a ", "\u{e9}\u{1f914}".as_bytes(), b"\\\n", b"/", b"*", b"\r\n", b"##", b"\t", b"\\",
        b" = {1, \"http://x\"};",
    ];
    let mut src = atoms(P, n);
    assume(src[0] != b'#');
    src.extend(b"\nend\n");
    let want = strip(&String::from_utf8(src.clone()).unwrap().replace("\r\n", "\n").into_bytes());
    let r = process(&[("t.hpp", &src)]);
    if let Some(w) = want {
        match r {
            Ok(p) => {
                reach("kept");
                // line ends are normalised, and pasting outside of a string has no meaning without macros
                let norm = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap().replace("##", "");
                check(norm(p.as_str().as_bytes()) == norm(&w), "text is not kept");
            }
            Err(_) => fail("plain text is rejected"),
        }
    }
}

const TOKENS: &[&[u8]] = &[
    b"#define ", b"#if ", b"#else", b"#endif", b"#ifdef ", b"#undef ", b"#include ", b"#pragma hemtt ", b"suppress ", b"A", b"F", b"(", b")",
    b",", b"##", b"#", b"\"", b"'", b"\\", b" ", b"\n", b"1", b"==", b"<", b"//", b"/*", b"*/", b"__COUNTER__", b"\xc3\xa9", b"__has_include",
    b"pw3_padded_arg ", b"\x01", b"line", b"flag ",
];
fn any_tokens(n: usize, pre: usize) {
    let mut src = [&b""[..], b"#define A 1\n#define F(p) p\n", b"#define A\n#define F() A\n", b"#if 1 == 1\n", b"#define A F\n#define F(p) A p #p\n"][pre].to_vec();
    let k = len(0, n);
    src.extend(atoms(TOKENS, k));
    reach(if process_shown(&[("t.hpp", &src)]) { "accepted" } else { "rejected" });
}
/// a macro whose body is any tokens, and a use
fn any_body(n: usize) {
    let mut src = [&b"#define F(p) p\n#define A "[..], b"#define F(p) A\n#define A ", b"#define F A\n#define A "][choice(3)].to_vec();
    src.extend(atoms(TOKENS, len(0, n)));
    src.extend([&b"\nA"[..], b"\nF(A)\n", b"\n#if A", b"\n#if A < 1\n", b"\n#if 1 < A\n#endif\n"][choice(5)]);
    reach(if process_shown(&[("t.hpp", &src)]) { "accepted" } else { "rejected" });
}
fn any_bytes(n: usize) {
    let b = bytes(len(0, n));
    reach(if process_shown(&[("t.hpp", &b)]) { "accepted" } else { "rejected" });
}

/// files that include each other or themselves, with and without guards, and long chains of them
fn circles(n: usize) {
    const NAMES: [&str; 3] = ["a.hpp", "b.hpp", "d/c.hpp"];
    if flip() {
        // a chain without a circle
        let n = [2usize, 12, 40][choice(3)];
        let mut files: Vec<(String, String)> = (0..n).map(|i| (format!("f{i}.hpp"), format!("x{i}\n#include \"f{}.hpp\"\ny{i}\n", i + 1))).collect();
        files.push((format!("f{n}.hpp"), "last\n".to_string()));
        let refs: Vec<(&str, &[u8])> = files.iter().map(|(n, t)| (n.as_str(), t.as_bytes())).collect();
        let Ok(p) = process(&refs) else { fail("a chain of includes is rejected") };
        reach("chain");
        let want: Vec<String> = (0..n).map(|i| format!("x{i}")).chain(["last".to_string()]).chain((0..n).rev().map(|i| format!("y{i}"))).collect();
        check(filled(p.as_str().as_bytes()) == want.iter().map(|w| w.as_bytes().to_vec()).collect::<Vec<_>>(), "a chain of includes gives other text");
        return;
    }
    // what each includes (0 for nothing), and its guard
    let mut what = [[0usize; 2]; 3];
    let mut guard = [0usize; 3];
    let mut files: Vec<(String, String)> = Vec::new();
    for f in 0..n {
        guard[f] = choice(2);
        for w in 0..2 {
            what[f][w] = choice(if f == 0 || w == 0 { n + 1 } else { 1 });
        }
        let mut t = ["", "#ifndef G\n#define G\n"][guard[f]].replace('G', &format!("G{f}"));
        t.push_str(&format!("in{f}\n"));
        for w in what[f] {
            if w > 0 {
                t.push_str(&format!("#include \"/{}\"\n", NAMES[w - 1]));
            }
        }
        t.push_str(&format!("out{f}\n"));
        if guard[f] == 1 {
            t.push_str("#endif\n");
        }
        files.push((NAMES[f].to_string(), t));
    }
    fn follow(f: usize, what: &[[usize; 2]; 3], guard: &[usize; 3], seen: &mut [bool; 3], depth: usize, out: &mut Vec<Vec<u8>>) -> bool {
        if guard[f] == 1 && std::mem::replace(&mut seen[f], true) {
            return true;
        }
        if depth > 6 {
            return false;
        }
        out.push(format!("in{f}").into_bytes());
        for w in what[f] {
            if w > 0 && !follow(w - 1, what, guard, seen, depth + 1, out) {
                return false;
            }
        }
        out.push(format!("out{f}").into_bytes());
        true
    }
    let mut want = Vec::new();
    let ends = follow(0, &what, &guard, &mut [false; 3], 0, &mut want);
    let refs: Vec<(&str, &[u8])> = files.iter().map(|(n, t)| (n.as_str(), t.as_bytes())).collect();
    let w = workspace(&refs);
    match Processor::run(&w.join(NAMES[0]).unwrap()) {
        Ok(p) => {
            reach("ends");
            check(ends, "an endless include is accepted");
            check(filled(p.as_str().as_bytes()) == want, "files that include each other give other text");
        }
        Err((_, e)) => {
            reach("circle");
            check(!ends, "files that include each other with guards are rejected");
            check(e.get_code().is_some_and(|c| c.diagnostic().is_some()), "an endless include is not explained");
        }
    }
}
/// deeply nested and many conditionals
fn many_conditionals() {
    let n = [9usize, 40, 130, 300][choice(4)];
    let mut src = b"#define A\n".to_vec();
    let mut want: Vec<String> = Vec::new();
    if flip() {
        // one in another, not read from level `out` on
        let out = [0, 1, n / 2, n - 1, n][choice(5)];
        let else_ = flip();
        for i in 0..n {
            src.extend([&b"#ifdef A\n"[..], b"#ifndef B\n", b"#ifndef A\n", b"#ifdef B\n"][usize::from(i == out) * 2 + i % 2]);
            src.extend(format!("d{i}\n").as_bytes());
            if i < out {
                want.push(format!("d{i}"));
            }
        }
        for i in (0..n).rev() {
            if else_ {
                src.extend(format!("#else\ne{i}\n").as_bytes());
                if i == out {
                    want.push(format!("e{i}"));
                }
            }
            src.extend(format!("#endif\nu{i}\n").as_bytes());
            if i <= out {
                want.push(format!("u{i}"));
            }
        }
    } else {
        for i in 0..n {
            let yes = i % 3 == 0;
            src.extend(if yes { &b"#ifdef A\n"[..] } else { b"#ifdef B\n" });
            src.extend(format!("y{i}\n#else\nn{i}\n#endif\n").as_bytes());
            want.push(format!("{}{i}", if yes { 'y' } else { 'n' }));
        }
    }
    match process(&[("t.hpp", &src)]) {
        Ok(p) => {
            reach("many");
            check(filled(p.as_str().as_bytes()) == want.iter().map(|w| w.as_bytes().to_vec()).collect::<Vec<_>>(), "the wrong branches of many are read");
        }
        Err(_) => fail("many conditionals are rejected"),
    }
}
/// many parameters, long names and bodies, long chains of macros
fn many_macros() {
    let n = [9usize, 17, 40, 130][choice(4)];
    let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
    let (mut src, want) = match choice(6) {
        // many parameters, used in the other order
        0 => {
            let s = format!("#define F({}) {}\nF({})", list(&|i| format!("a{i}"), ","), list(&|i| format!("a{}", n - 1 - i), "+"), list(&|i| format!("x{i}-\"y,\""), ","));
            (s, list(&|i| format!("x{}-\"y,\"", n - 1 - i), "+"))
        }
        // each macro uses the one before
        1 => (format!("#define M0 z\n{}\nM{n}", list(&|i| format!("#define M{} M{i};", i + 1), "\n")), format!("z{}", ";".repeat(n))),
        2 => (format!("#define M0(p) p\n{}\nM{n}(\"q\")", list(&|i| format!("#define M{}(p) M{i}(p)p", i + 1), "\n")), "\"q\"".repeat(n + 1)),
        // one call in another
        3 => (format!("#define F(p) p-\n{}x{}", "F(".repeat(n), ")".repeat(n)), format!("x{}", "-".repeat(n))),
        // brackets in brackets
        4 => {
            let depth = if flip() { n } else { choice(9) };
            let (o, c) = ("(".repeat(depth), ")".repeat(depth));
            (format!("#define G(p,q) q:p\nG(x{o}a{c},b{o}\"c)\"{c})"), format!("b{o}\"c)\"{c}:x{o}a{c}"))
        }
        // long names and texts
        _ => {
            let (m, t) = ("M".repeat(n * 3), "t".repeat(n * 3));
            (format!("#define {m}(p{t}) #p{t} p{t}##{t}\n{m}({t})"), format!("\"{t}\" {t}{t}"))
        }
    };
    src.push('\n');
    match process(&[("t.hpp", src.as_bytes())]) {
        Ok(p) => {
            reach("many");
            check(filled(p.as_str().as_bytes()) == vec![want.into_bytes()], "a long expansion is another one");
        }
        Err(_) => fail("many or long macros are rejected"),
    }
}
/// the numbers of many lines and uses
fn long_count(huge: bool) {
    let n = if huge { 65540 } else { [300usize, 1000][choice(2)] };
    let reset = !huge && flip();
    let mut src = String::new();
    let mut want = String::new();
    for i in 0..n {
        if huge {
            src.push_str("__COUNTER__ ");
            want.push_str(&format!("{i} "));
            continue;
        }
        if reset && i == n / 2 {
            src.push_str("__COUNTER_RESET__;\n");
            want.push_str(";\n");
        }
        let lines = usize::from(reset && i >= n / 2);
        src.push_str("__COUNTER__:__LINE__\n");
        want.push_str(&format!("{}:{}\n", if lines == 1 { i - n / 2 } else { i }, i + 1 + lines));
    }
    src.push('\n');
    want.push('\n');
    match process(&[("t.hpp", src.as_bytes())]) {
        Ok(p) => {
            reach("count");
            check(p.as_str() == want, "a number of many is another one");
        }
        Err(_) => fail("many lines are rejected"),
    }
}
/// long lines, many lines, long strings and comments
fn long_text() {
    let n = [100usize, 257, 300, 3000][choice(4)];
    let s = match choice(5) {
        0 => format!("x = \"{}\";\n", "a'b//".repeat(n)),
        1 => format!("x = {{{}}};\n", "1, 'q', ".repeat(n)),
        2 => format!("{}x;\n", "y;\n\n".repeat(n)),
        3 => format!("x;{}\n", "word".repeat(n)),
        _ => format!("x = \"{}\";\n", "\"\"".repeat(n)),
    };
    match process(&[("t.hpp", s.as_bytes())]) {
        Ok(p) => {
            reach("long");
            check(p.as_str() == s, "long text is not kept");
        }
        Err(_) => fail("long plain text is rejected"),
    }
}

pub fn run(h: u32) {
    match h {
        15 => circles(param(0)),
        11 => many_conditionals(),
        12 => many_macros(),
        13 => long_text(),
        14 => long_count(param(0) == 1),
        0 => {
            let p = process(&[("t.hpp", b"#define A 1\nx = A;\n")]).ok().unwrap();
            obs(p.as_str().as_bytes());
            check(p.as_str() == "x = 1;\n", "concrete");
            reach("concrete");
        }
        1 => conditionals(param(0), param(1)),
        2 => comparison(),
        3 => objects(param(0), param(1), param(2)),
        4 => functions(param(0), param(1), param(2), param(3), param(4) == 1),
        5 => builtins(param(0)),
        6 => passthrough(param(0), b"a\"'/*\\\n "),
        7 => passthrough_pieces(param(0)),
        8 => any_tokens(param(0), param(1)),
        9 => any_body(param(0)),
        _ => any_bytes(param(0)),
    }
}
