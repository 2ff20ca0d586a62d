use crate::gen::Gen;
use crate::sqfc::{places, read, Script, S, T};
use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::Processor;
use hemtt_sqf::{
    parser::{database::Database, ParserError},
    Statements,
};
use hemtt_workspace::{
    addons::Addon,
    reporting::{Code, Processed, WorkspaceFiles},
    Workspace,
};
use std::sync::Arc;
use symrt::*;

pub fn process(text: &[u8]) -> Option<Processed> {
    let w = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).unwrap();
    let p = w.join("script.sqf").unwrap();
    p.create_file().unwrap().write_all(text).unwrap();
    Processor::run(&p).ok()
}
pub fn compiled(s: &Statements, p: &Processed) -> Script {
    let mut out = Vec::new();
    check(s.compile_to_writer(p, &mut out).is_ok(), "a script that parses does not compile");
    obs(&out);
    match read(&out) {
        Ok(s) => s,
        Err(e) => fail(e),
    }
}
pub fn parsed(db: &Database, src: &[u8]) -> (Statements, Processed) {
    let Some(p) = process(src) else { fail("a script without directives is rejected by the preprocessor") };
    match hemtt_sqf::parser::run(db, &p) {
        Ok(s) => (s, p),
        Err(ParserError::LexingError(_) | ParserError::ParsingError(_)) => fail("a well-formed script is rejected"),
    }
}
const OPS: &[&str] = &[
    "#", "^", "*", "/", "%", "MOD", "atan2", "+", "-", "max", "Min", "else", "select", ":", "getVariable", "==", "!=", ">", "<", ">=", "<=", ">>", "&&", "And", "||", "or",
];
const LEVELS: &[&str] = &["#", "^", "*", "-", "else", "Select", ">=", "&&", "or"];

/// what is compiled from a script is what it says
fn meaning(mut g: Gen, statements: u8) {
    let db = Database::a3(false);
    let head = [&b""[..], b"#define NOTHING 1\n/* \xc3\xa4 */\n"][if param(1) > 0 { choice(2) } else { 0 }];
    g.style = choice(param(2));
    let code = match statements {
        0 => vec![S::Expr(g.expr())],
        1 => g.statements().0,
        _ => {
            let at = g.put(b"call");
            g.put(b"{");
            let (s, from, to) = g.statements();
            let text = if s.is_empty() { Vec::new() } else { g.src[from..to].to_vec() };
            g.put(b"}");
            vec![S::Expr(T::Un(b"call".to_vec(), Box::new(T::Code(s, text)), at))]
        }
    };
    let src = [head, &g.src].concat();
    let (s, p) = parsed(&db, &src);
    let text = p.as_str().as_bytes().to_vec();
    check(text.ends_with(&g.src), "the preprocessor changes a script without macros");
    let shift = ((text.len() - g.src.len()) as u32, head.iter().filter(|c| **c == b'\n').count() as u16);
    let got = compiled(&s, &p);
    reach("compiled");
    check(got.source == text, "the text of a compiled script is another one");
    // nothing is in no file
    let none = got.files.is_empty() && g.src.is_empty();
    check(none || got.files.len() == 1 && got.files[0] == b"/script.sqf", "the files of a compiled script are others");
    check(got.code == moved_all(&code, shift), "a compiled script is not what its source says");
}
/// everything further on by an offset and lines
fn moved_all(v: &[S], d: (u32, u16)) -> Vec<S> {
    v.iter()
        .map(|s| match s {
            S::Global(n, t, a) => S::Global(n.clone(), moved(t, d), (a.0 + d.0, a.1 + d.1)),
            S::Local(n, t, a) => S::Local(n.clone(), moved(t, d), (a.0 + d.0, a.1 + d.1)),
            S::Expr(t) => S::Expr(moved(t, d)),
        })
        .collect()
}
fn moved(t: &T, d: (u32, u16)) -> T {
    match t {
        T::Nular(n, a) => T::Nular(n.clone(), (a.0 + d.0, a.1 + d.1)),
        T::Var(n, a) => T::Var(n.clone(), (a.0 + d.0, a.1 + d.1)),
        T::Un(n, x, a) => T::Un(n.clone(), Box::new(moved(x, d)), (a.0 + d.0, a.1 + d.1)),
        T::Bin(n, x, y, a) => T::Bin(n.clone(), Box::new(moved(x, d)), Box::new(moved(y, d)), (a.0 + d.0, a.1 + d.1)),
        T::Arr(v, s) => T::Arr(v.iter().map(|t| moved(t, d)).collect(), *s),
        T::Code(v, text) => T::Code(moved_all(v, d), text.clone()),
        _ => t.clone(),
    }
}

pub fn run(h: u32) {
    match h {
        // operators
        0 => {
            let mut g = Gen::new(0, param(0));
            g.ops = OPS;
            g.uns = &["-", "!", "+", "Count", "call"];
            meaning(g, 0);
        }
        1 => {
            let mut g = Gen::new(0, param(0));
            g.ops = LEVELS;
            g.uns = &["-", "call"];
            g.kinds = &[1, 6];
            meaning(g, 0);
        }
        // statements, code, arrays, literals
        2 | 10 => {
            let mut g = Gen::new(0, param(0));
            g.ops = &["getVariable"];
            g.uns = &["!"];
            g.kinds = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
            g.strs = &[("\"a\"\"b;\u{e4}\"", "a\"b;\u{e4}"), ("'\"'''", "\"'"), ("''", "")];
            meaning(g, if h == 2 { 1 } else { 2 });
        }
        // optimising arithmetic and text
        3 => {
            let mut g = Gen::new(1, param(0));
            g.ops = &["+", "-", "*", "/", "%", "mod"];
            g.uns = &["-", "sqrt", "toLower", "toUpperANSI", "+", "call"];
            g.kinds = &[0, 1, 2, 7];
            g.nums = &["0", "2.5", "3e38"];
            g.strs = &[("\"Ab\"", "Ab"), ("'\u{e4}C'", "\u{e4}C")];
            optimised(g);
        }
        // optimising commands that take arrays
        4 => {
            let mut g = Gen::new(1, param(0));
            g.ops = &["params", "param", "getVariable", "setVariable", "getOrDefault", "vectorAdd", "call", "else", "then", "select", "vectorDotProduct"];
            g.uns = &["params", "param", "random", "positionCameraToWorld", "call", "count"];
            g.kinds = &[0, 1, 7, 8];
            g.vars = &["_this", "_x"];
            optimised(g);
        }
        5 => any_tokens(param(0)),
        6 => any_bytes(param(0)),
        7 => elements(),
        8 => many(),
        9 => places_in_files(param(0)),
        _ => {}
    }
}

/// an optimised script means what it meant
fn optimised(mut g: Gen) {
    let want = vec![S::Expr(g.expr())];
    check(same(&g.src) == want, "a compiled script is not what its source says");
}
fn same(src: &[u8]) -> Vec<S> {
    let db = Database::a3(false);
    let (s, p) = parsed(&db, src);
    let want = compiled(&s, &p).code;
    let got = compiled(&s.optimize(), &p).code;
    reach("optimised");
    for s in &got {
        let (S::Expr(t) | S::Global(_, t, _) | S::Local(_, t, _)) = s;
        shared(t, false);
    }
    check(normal_all(&got) == normal_all(&want), "an optimised script means something else");
    want
}
/// commands that take arrays, with all kinds of elements
fn elements() {
    const E: &[&str] = &["1", "'a'", "[]", "[2,{}]", "[3,[4]]", "{5}else{6}", "-7", "_x", "objNull", "true", "+[8]", "(9+1)", "[2,{}else{}]", "toLower 'A'"];
    let (before, after) = [("params[[", "]]"), ("_x params[", "]"), ("param[", "]"), ("_this param[", "]"), ("_x getVariable[", "]"), ("_x setVariable[", "]"), ("_x getOrDefault[", "]"), ("[0]vectorAdd[", "]"), ("[", "]vectorDotProduct[1]"), ("random[", "]"), ("positionCameraToWorld[", "]"), ("_x pushBack[", "]"), ("_a=[", "]"), ("count[", "]")][choice(14)];
    let n = choice(param(0)) + 1;
    let e: Vec<&str> = (0..n).map(|_| E[choice(E.len())]).collect();
    same(format!("{before}{}{after}", e.join(",")).as_bytes());
}
/// An array that all executions share may only go where nothing can change it.
fn shared(t: &T, may: bool) {
    match t {
        T::Arr(v, s) => {
            check(may || !s, "an array that all executions share can be changed");
            for t in v {
                shared(t, *s);
            }
        }
        T::Code(v, _) => {
            for s in v {
                let (S::Expr(t) | S::Global(_, t, _) | S::Local(_, t, _)) = s;
                shared(t, false);
            }
        }
        T::Un(n, a, _) => shared(a, consumes(n, a, false)),
        T::Bin(n, a, b, _) => {
            shared(a, consumes(n, a, true));
            shared(b, consumes(n, b, false));
        }
        _ => {}
    }
}
/// whether a command neither keeps, changes nor gives away an array or a part of it
fn consumes(n: &[u8], a: &T, left: bool) -> bool {
    let T::Arr(v, _) = a else { return false };
    let default = |t: &T| matches!(t, T::Arr(v, _) if matches!(v.get(1), Some(T::Arr(..))));
    match n {
        b"vectoradd" | b"vectordotproduct" => true,
        b"+" | b"random" | b"positioncameratoworld" | b"count" | b"then" => !left,
        b"params" => !left && !v.iter().any(default),
        b"param" | b"getvariable" | b"setvariable" | b"getordefault" => !left && !default(a),
        _ => false,
    }
}
/// constant operations done, copies of new arrays left out
fn normal(t: &T) -> T {
    let num = |t: &T| if let T::Num(n) = t { Some(f32::from_bits(*n)) } else { None };
    match t {
        T::Arr(v, _) => T::Arr(v.iter().map(normal).collect(), false),
        T::Code(v, t) => T::Code(normal_all(v), t.clone()),
        T::Un(n, a, at) => {
            let a = normal(a);
            match (&n[..], &a) {
                (b"+", T::Arr(..)) => a,
                (b"-", T::Num(x)) => T::Num(x ^ 1 << 31),
                (b"sqrt", T::Num(x)) if f32::from_bits(*x).sqrt().is_finite() => T::Num(f32::from_bits(*x).sqrt().to_bits()),
                (b"tolower" | b"toloweransi", T::Str(s)) if s.is_ascii() => T::Str(s.to_ascii_lowercase()),
                (b"toupper" | b"toupperansi", T::Str(s)) if s.is_ascii() => T::Str(s.to_ascii_uppercase()),
                _ => T::Un(n.clone(), Box::new(a), *at),
            }
        }
        T::Bin(n, a, b, at) => {
            let (a, b) = (normal(a), normal(b));
            if let (Some(x), Some(y)) = (num(&a), num(&b)) {
                let v = match &n[..] {
                    b"+" => x + y,
                    b"-" => x - y,
                    b"*" => x * y,
                    b"/" => x / y,
                    b"%" | b"mod" => x % y,
                    _ => f32::NAN,
                };
                if v.is_finite() {
                    return T::Num(v.to_bits());
                }
            }
            match (&n[..], &a, &b) {
                (b"+", T::Str(x), T::Str(y)) => T::Str([&x[..], y].concat()),
                (b"else", T::Code(..), T::Code(..)) => T::Arr(vec![a, b], false),
                // what is called sees the same `_this` anyway
                (b"call", T::Var(v, _), _) if v == b"_this" => T::Un(n.clone(), Box::new(b), *at),
                _ => T::Bin(n.clone(), Box::new(a), Box::new(b), *at),
            }
        }
        _ => t.clone(),
    }
}
fn normal_all(v: &[S]) -> Vec<S> {
    v.iter()
        .map(|s| match s {
            S::Global(n, t, a) => S::Global(n.clone(), normal(t), *a),
            S::Local(n, t, a) => S::Local(n.clone(), normal(t), *a),
            S::Expr(t) => S::Expr(normal(t)),
        })
        .collect()
}

/// many names and constants, far down in long files, in deep code, with long texts
fn many() {
    let db = Database::a3(false);
    let (n, lines, depth) = [(1, 0, 40), (130, 300, 1), (300, 0, 0), (2, 1000, 2)][choice(4)];
    let mut src = Vec::new();
    let mut want = Vec::new();
    let mut line = 1;
    let at = |src: &Vec<u8>, line: u16| (src.len() as u32, line);
    let long = vec![b'x'; if n == 2 { 70_000 } else { 1 }];
    for i in 0..n {
        let a = at(&src, line);
        let v = format!("v{i}").into_bytes();
        src.extend(&v);
        src.extend(b"=");
        let t = if i % 2 == 0 {
            src.extend(format!("{i}").as_bytes());
            T::Num((i as f32).to_bits())
        } else {
            src.push(b'"');
            src.extend(&long);
            src.extend(format!("{i}\"").as_bytes());
            T::Str([&long[..], format!("{i}").as_bytes()].concat())
        };
        src.push(b';');
        want.push(S::Global(v, t, a));
        if i == 0 {
            src.resize(src.len() + lines, b'\n');
            line += lines as u16;
        }
    }
    let mut from = Vec::new();
    for _ in 0..depth {
        src.push(b'{');
        from.push(src.len());
    }
    let a = at(&src, line);
    src.extend(b"player");
    let mut t = T::Nular(b"player".to_vec(), a);
    for f in from.into_iter().rev() {
        let text = src[f..].to_vec();
        src.push(b'}');
        t = T::Code(vec![S::Expr(t)], text);
    }
    want.push(S::Expr(t));
    let (s, p) = parsed(&db, &src);
    let got = compiled(&s, &p);
    reach("compiled");
    check(got.source == p.as_str().as_bytes(), "the text of a compiled script is another one");
    check(got.code == want, "a large compiled script is not what its source says");
}
/// every command and name is in its own line of its own file
fn places_in_files(n: usize) {
    const FILES: &[(&str, &str, &str)] = &[("a/x.sqf", "", "A0"), ("b/x.sqf", "\n\n", "B0"), ("a/y.sqf", "\n", "C0"), ("b/z.hpp", "#include \"..\\a\\x.sqf\"\n", "D0")];
    let db = Database::a3(false);
    let w = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).unwrap();
    let mut at: Vec<(Vec<u8>, u16, &str)> = Vec::new();
    for d in ["a", "b"] {
        w.join(d).unwrap().create_dir().unwrap();
    }
    for (f, head, c) in FILES {
        let text = format!("{head}{c} = {{call {c}}};\n");
        w.join(f).unwrap().create_file().unwrap().write_all(text.as_bytes()).unwrap();
    }
    let mut src = String::new();
    for i in 0..n {
        let line = i as u16 + 1;
        let k = choice(6);
        let mut own = |c: &str, l: u16, f: &'static str| {
            for t in ["call", &c.to_lowercase(), &c.to_lowercase()] {
                at.push((t.as_bytes().to_vec(), l, f));
            }
        };
        match k {
            0 => {
                own("E0", line, "script.sqf");
                src.push_str("E0 = {call E0};\n");
                continue;
            }
            1 => {
                src.push_str("/* \u{e4} */\n");
                continue;
            }
            2 => own("A0", 1, "a/x.sqf"),
            3 => own("B0", 3, "b/x.sqf"),
            4 => own("C0", 2, "a/y.sqf"),
            _ => {
                own("A0", 1, "a/x.sqf");
                own("D0", 2, "b/z.hpp");
            }
        }
        src.push_str(&format!("#include \"{}\"\n", FILES[k - 2].0));
    }
    let p = w.join("script.sqf").unwrap();
    p.create_file().unwrap().write_all(src.as_bytes()).unwrap();
    let Ok(p) = Processor::run(&p) else { fail("a script that includes files is rejected by the preprocessor") };
    let Ok(s) = hemtt_sqf::parser::run(&db, &p) else { fail("a script that includes files is rejected") };
    let mut out = Vec::new();
    check(s.compile_to_writer(&p, &mut out).is_ok(), "a script that includes files does not compile");
    let got = match places(&out) {
        Ok(v) => v,
        Err(e) => fail(e),
    };
    reach("places");
    let text = p.as_str().as_bytes();
    let mut seen = Vec::new();
    for (n, a, f) in got {
        let here = text.get(a.0 as usize..a.0 as usize + n.len());
        check(here.is_some_and(|t| t.eq_ignore_ascii_case(&n)), "a name of a compiled script is at another offset");
        seen.push((n.to_ascii_lowercase(), a.1, f));
    }
    let mut want: Vec<_> = at.into_iter().map(|(n, l, f)| (n, l, [b"/", f.as_bytes()].concat())).collect();
    seen.sort();
    want.sort();
    check(seen == want, "a command or name of a compiled script is in another line or file");
}
/// any text ends with statements, all of whose uses work, or with errors that say where
fn any(src: &[u8]) {
    let db = Arc::new(Database::a3(false));
    let Some(p) = process(src) else { return };
    match hemtt_sqf::parser::run(&db, &p) {
        Ok(s) => {
            reach("parsed");
            compiled(&s, &p);
            for c in hemtt_sqf::analyze::analyze(&s, None, &p, Arc::new(Addon::test_addon()), db.clone()) {
                shown(&*c);
            }
            let _ = s.required_version(&db);
            compiled(&s.optimize(), &p);
        }
        Err(e) => {
            reach("errors");
            check(!e.codes().is_empty(), "a script is rejected without an error");
            for c in e.codes() {
                shown(&**c);
            }
        }
    }
}
pub fn shown(c: &dyn Code) {
    let files = WorkspaceFiles::new();
    let Some(d) = c.diagnostic() else { fail("an error or warning without a diagnostic") };
    check(!d.labels.is_empty(), "an error or warning without a place");
    for l in &d.labels {
        let r = l.to_codespan().range;
        let text = l.file().read_to_string().unwrap();
        check(r.start <= r.end, "a place that ends before it starts");
        check(r.end <= text.len(), "a place outside of the file");
        check(text.is_char_boundary(r.start) && text.is_char_boundary(r.end), "a place within a character");
    }
    let says = d.labels.iter().any(|l| !l.to_codespan().message.is_empty());
    check(!says || !d.to_annotations(&files).is_empty(), "an error or warning without an annotation");
    check(!d.to_string(&files).is_empty(), "an error or warning without text");
}
const TOKENS: &[&str] = &["1", "_x", "'a'", "player", "if", "then", "-", "!", "&&", "=", ";", ",", "(", ")", "[", "]", "{", "}", "private", "params", "\"\""];
fn any_tokens(n: usize) {
    let mut src = Vec::new();
    for _ in 0..n {
        src.extend(TOKENS[choice(TOKENS.len())].as_bytes());
        src.push(b' ');
    }
    any(&src);
}
fn any_bytes(n: usize) {
    let mut src = Vec::new();
    for _ in 0..n {
        src.extend([&b"\xc3\xa4"[..], b"'", b"\"", b"$", b"0", b"x", b"e", b".", b"-", b"/", b"*", b"\n", b" ", b"[", b"]", b"}", b"\\", b"|", b"_", b"1", b"\r"][choice(21)]);
    }
    any(&src);
}
