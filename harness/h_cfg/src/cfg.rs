use crate::raps::{unrap, P, V};
use chumsky::Parser;
use hemtt_common::config::PDriveOption;
use hemtt_config::{rapify::Rapify, Config, ConfigReport};
use hemtt_preprocessor::Processor;
use hemtt_workspace::{
    reporting::{Code, Label, Processed, WorkspaceFiles},
    Workspace,
};
use symrt::*;

pub fn process(text: &[u8]) -> Option<Processed> {
    let w = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).unwrap();
    let p = w.join("config.cpp").unwrap();
    p.create_file().unwrap().write_all(text).unwrap();
    Processor::run(&p).ok()
}
fn binary(c: &Config) -> Vec<u8> {
    let mut out = Vec::new();
    let n = c.rapify(&mut out, 0);
    check(n.is_ok(), "binarising into memory fails");
    check(n.unwrap() == out.len(), "the written length is not what is reported");
    check(c.rapified_length() == out.len(), "the written length is not what is announced");
    out
}
fn content(c: &Config) -> Vec<P> {
    match unrap(&binary(c)) {
        Ok(p) => p,
        Err(e) => fail(e),
    }
}
/// parsed without preprocessor and lints
fn parsed(src: &[u8]) -> Option<Config> {
    hemtt_config::parse::config().parse(std::str::from_utf8(src).unwrap()).ok()
}
/// parsed with preprocessor and lints: the config if there are no errors
fn accepted(src: &[u8]) -> Option<ConfigReport> {
    let r = hemtt_config::parse(None, &process(src)?).ok()?;
    if r.errors().is_empty() {
        Some(r)
    } else {
        None
    }
}

struct Gen {
    src: Vec<u8>,
    style: usize,
    budget: usize,
    names: usize,
}
impl Gen {
    fn put(&mut self, t: &[u8]) {
        self.src.extend(t);
    }
    /// white space that may be there
    fn ws(&mut self) {
        self.src.extend([&b""[..], b" ", b"\n\t"][self.style]);
    }
    fn name(&mut self) -> Vec<u8> {
        let n = self.names;
        self.names += 1;
        let v = [&b"a"[..], b"B_1", b"_", b"c2c2", b"9x", b"classy"][n % 6].to_vec();
        self.put(&v);
        v
    }
    fn more(&mut self) -> bool {
        if self.budget > 0 && flip() {
            self.budget -= 1;
            return true;
        }
        false
    }
    fn scalar(&mut self, k: usize) -> V {
        match k {
            0 => {
                let d = self.names as u8 % 10;
                self.put(&[b'4', b'0' + d]);
                V::I(40 + i64::from(d))
            }
            1 => {
                self.put("\"x\"\"ä;}\"".as_bytes());
                V::S("x\"ä;}".into())
            }
            2 => {
                self.put(b"-1.5");
                V::F((-1.5f32).to_bits())
            }
            3 => {
                self.put(b"99999999999");
                V::I(99_999_999_999)
            }
            _ => {
                self.put(b"\"\"");
                V::S(Vec::new())
            }
        }
    }
    fn array(&mut self) -> Vec<V> {
        let mut v = Vec::new();
        self.put(b"{");
        self.ws();
        while self.more() {
            if !v.is_empty() {
                self.put(b",");
                self.ws();
            }
            let k = choice(4);
            v.push(if k == 3 { V::A(self.array()) } else { self.scalar(k) });
            self.ws();
        }
        self.put(b"}");
        v
    }
    fn props(&mut self) -> Vec<P> {
        let mut v = Vec::new();
        while self.more() {
            let p = match choice(9) {
                k @ 0..=4 if k < 4 => {
                    let k = [0, 1, 2, 4][k];
                    let n = self.name();
                    self.ws();
                    self.put(b"=");
                    self.ws();
                    let s = self.scalar(if k == 4 { 3 } else { k });
                    P::Val(n, s)
                }
                4 => {
                    let n = self.name();
                    self.put("=__EVAL(1+(2)*3+'ä')".as_bytes());
                    P::Val(n, V::E("1+(2)*3+'ä'".into()))
                }
                k @ (5 | 6) => {
                    let n = self.name();
                    self.put(b"[]");
                    self.ws();
                    self.put(if k == 5 { b"=" } else { b"+=" });
                    self.ws();
                    let a = self.array();
                    if k == 5 {
                        P::Val(n, V::A(a))
                    } else {
                        P::Exp(n, a)
                    }
                }
                7 => {
                    if flip() {
                        self.put(b"class ");
                        P::Ext(self.name())
                    } else {
                        self.put(b"delete ");
                        P::Del(self.name())
                    }
                }
                _ => {
                    self.put(b"class ");
                    let n = self.name();
                    self.ws();
                    let mut parent = Vec::new();
                    if flip() {
                        self.put(b":");
                        self.ws();
                        parent = self.name();
                        self.ws();
                    }
                    self.put(b"{");
                    self.ws();
                    let c = self.props();
                    self.put(b"}");
                    P::Class(n, parent, c)
                }
            };
            self.put(b";");
            self.ws();
            v.push(p);
        }
        v
    }
}
/// any shape of config, in one of three layouts
fn shapes(budget: usize) {
    let mut g = Gen { src: Vec::new(), style: choice(3), budget, names: 0 };
    let want = g.props();
    match parsed(&g.src) {
        Some(c) => {
            reach("binarised");
            check(content(&c) == want, "the binarised config is another one");
        }
        None => fail("a well-formed config is rejected"),
    }
}
/// many entries, long names and bodies: offsets and counts beyond one byte
fn large() {
    let kind = if param(0) == 0 { choice(6) } else { 6 + choice(3) };
    let n = match kind {
        2 => 300,
        0 | 1 | 3 => [127usize, 128, 130][choice(3)],
        4 => [129, 300][choice(2)],
        5 => [17, 40][choice(2)],
        6 => 66_000,
        7 => 1_000,
        _ => 1_500,
    };
    let mut src = b"class outer: p{class one{".to_vec();
    let mut inner = Vec::new();
    match kind {
        0 => {
            src.extend(b"v[]={1");
            let mut a = vec![V::I(1)];
            for _ in 1..n {
                src.extend(b",1");
                a.push(V::I(1));
            }
            src.extend(b"};");
            inner.push(P::Val(b"v".to_vec(), V::A(a)));
        }
        1 => {
            for _ in 0..n {
                src.extend(b"v=1;");
                inner.push(P::Val(b"v".to_vec(), V::I(1)));
            }
        }
        2 => {
            src.extend(b"v=\"");
            src.extend(vec![b's'; n]);
            src.extend(b"\";");
            inner.push(P::Val(b"v".to_vec(), V::S(vec![b's'; n])));
        }
        4 => {
            for i in 0..n {
                src.extend(format!("class c{i}: p{i}{{}};").as_bytes());
                inner.push(P::Class(format!("c{i}").into_bytes(), format!("p{i}").into_bytes(), Vec::new()));
            }
        }
        5 => {
            for i in 0..n {
                src.extend(format!("class c{i}{{").as_bytes());
            }
            src.extend(b"x=1;");
            inner.push(P::Val(b"x".to_vec(), V::I(1)));
            for i in (0..n).rev() {
                src.extend(format!("}};y{i}=2;").as_bytes());
                inner = vec![P::Class(format!("c{i}").into_bytes(), Vec::new(), inner), P::Val(format!("y{i}").into_bytes(), V::I(2))];
            }
        }
        6 => {
            src.extend(b"v=\"");
            src.extend(vec![b's'; n]);
            src.extend(b"\";");
            inner.push(P::Val(b"v".to_vec(), V::S(vec![b's'; n])));
        }
        7 => {
            src.extend(b"v[]={0");
            let mut a = vec![V::I(0)];
            for _ in 1..n {
                src.extend(b",3");
                a.push(V::I(3));
            }
            src.extend(b"};");
            inner.push(P::Val(b"v".to_vec(), V::A(a)));
        }
        8 => {
            for i in 0..n {
                src.extend(b"v=123;");
                inner.push(P::Val(b"v".to_vec(), V::I(123)));
                if i % 100 == 0 {
                    src.extend(b"class e;");
                    inner.push(P::Ext(b"e".to_vec()));
                }
            }
        }
        _ => {
            src.extend(b"v[]+={{");
            let mut a = Vec::new();
            for _ in 0..n {
                src.extend(b"2,");
                a.push(V::I(2));
            }
            src.extend(b"}};");
            inner.push(P::Exp(b"v".to_vec(), vec![V::A(a)]));
        }
    }
    src.extend(b"};class two{w=2;};};");
    let two = P::Class(b"two".to_vec(), Vec::new(), vec![P::Val(b"w".to_vec(), V::I(2))]);
    let want = vec![P::Class(b"outer".to_vec(), b"p".to_vec(), vec![P::Class(b"one".to_vec(), Vec::new(), inner), two])];
    match parsed(&src) {
        Some(c) => {
            reach("large");
            check(content(&c) == want, "the binarised config is another one");
        }
        None => fail("a well-formed config is rejected"),
    }
}
/// symbolic names and strings
fn contents(names: usize, strings: usize) {
    let n1 = text(b"aZ_09", len(1, names));
    let n2 = text(b"aZ_09", len(1, names));
    let s: Vec<Vec<u8>> = (0..len(1, 2)).map(|_| text(b"a\"\\\n;n'", len(0, strings))).collect();
    let mut src = b"class ".to_vec();
    src.extend(&n1);
    src.extend(b" : ");
    src.extend(&n2);
    src.extend(b" { ");
    src.extend(&n2);
    src.extend(b" = ");
    let mut want = Vec::new();
    for (i, s) in s.iter().enumerate() {
        if i > 0 {
            src.extend([&b"\\n"[..], b" \\n\n"][choice(2)]);
            want.push(b'\n');
        }
        src.push(b'"');
        for (i, c) in s.iter().enumerate() {
            // the preprocessor has joined continued lines
            assume(*c != b'\n' || i == 0 || s[i - 1] != b'\\');
            src.push(*c);
            if *c == b'"' {
                src.push(b'"');
            }
            want.push(*c);
        }
        if i == 0 {
            let c = ["", "ß", "語😀"][choice(3)];
            src.extend(c.as_bytes());
            want.extend(c.as_bytes());
        }
        src.push(b'"');
    }
    src.extend(b"; };");
    let want = vec![P::Class(n1, n2.clone(), vec![P::Val(n2, V::S(want))])];
    match parsed(&src) {
        Some(c) => {
            reach("content");
            check(content(&c) == want, "a name or a string is changed");
        }
        None => fail("a well-formed config is rejected"),
    }
}

fn num(src: &[u8], array: bool) -> Option<V> {
    let mut b = if array { b"x[]={".to_vec() } else { b"x=".to_vec() };
    b.extend(src);
    b.extend(if array { &b"};"[..] } else { b";" });
    let c = parsed(&b)?;
    if c.0.iter().any(|p| matches!(p, hemtt_config::Property::MissingSemicolon(..))) {
        return None;
    }
    match content(&c).pop() {
        Some(P::Val(_, V::A(mut v))) => {
            check(v.len() == 1, "one number in an array is not one");
            v.pop()
        }
        Some(P::Val(_, v)) => Some(v),
        _ => fail("a number is not a value"),
    }
}
/// integers: decimal and hexadecimal, signed
fn integers(digits: usize) {
    let neg = flip();
    let hex = flip();
    let n = len(1, digits);
    let mut v = 0i64;
    let mut src = if neg { b"-".to_vec() } else { Vec::new() };
    if hex {
        src.extend(b"0x");
        for _ in 0..n {
            let d = of(b"0179afAF");
            src.push(d);
            v = v * 16 + i64::from((d as char).to_digit(16).unwrap());
        }
    } else {
        for _ in 0..n {
            let d = range(b'0', b'9');
            src.push(d);
            v = v * 10 + i64::from(d - b'0');
        }
    }
    src.extend([&b""[..], b" "][choice(2)]);
    if neg {
        v = -v;
    }
    reach("integer");
    check(num(&src, flip()) == Some(V::I(v)), "an integer is changed");
}
fn boundaries() {
    const T: &[(&[u8], Option<i64>)] = &[
        (b"2147483647", Some(2_147_483_647)),
        (b"2147483648", Some(2_147_483_648)),
        (b"-2147483647", Some(-2_147_483_647)),
        (b"-2147483648", Some(-2_147_483_648)),
        (b"-2147483649", Some(-2_147_483_649)),
        (b"0x7fffffff", Some(0x7fff_ffff)),
        (b"0x80000000", Some(0x8000_0000)),
        (b"0xffffffff", Some(0xffff_ffff)),
        (b"4294967296", Some(4_294_967_296)),
        (b"9223372036854775807", Some(i64::MAX)),
        (b"-9223372036854775807", Some(-i64::MAX)),
        (b"9223372036854775808", None),
        (b"0xffffffffffffffffff", None),
        (b"99999999999999999999", None),
    ];
    let (t, v) = T[choice(T.len())];
    reach("boundary");
    check(num(t, flip()) == v.map(V::I), "a number at the border of the integers is changed");
}
/// a decimal number: its digits, the power of ten, its text
fn decimals() {
    let (i, f, e) = (choice(3), choice(3), choice(4));
    assume(i + f > 0 && (f > 0 || e > 0) && !(i == 0 && f > 0 && e > 0));
    let neg = flip();
    let mut n = 0u32;
    let mut src = if neg { b"-".to_vec() } else { Vec::new() };
    let mut digit = |src: &mut Vec<u8>| {
        let d = conc(u64::from(of(b"0157"))) as u8;
        src.push(d);
        n = n * 10 + u32::from(d - b'0');
    };
    for _ in 0..i {
        digit(&mut src);
    }
    if f > 0 {
        src.push(b'.');
        for _ in 0..f {
            digit(&mut src);
        }
    }
    let mut p = -(f as i32);
    if e > 0 {
        src.extend([&b"e2"[..], b"E-1", b"e+3"][e - 1]);
        p += [2, -1, 3][e - 1];
    }
    let n = f64::from(n);
    let mut v = (if p < 0 { n / 10f64.powi(-p) } else { n * 10f64.powi(p) }) as f32;
    if neg {
        v = -v;
    }
    reach("decimal");
    check(num(&src, flip()) == Some(V::F(v.to_bits())), "a decimal number is changed");
    // in front of a blank it is the value of an expression
    src.push(b' ');
    let got = match num(&src, false) {
        Some(V::I(i)) => i as f32,
        Some(V::F(f)) => f32::from_bits(f),
        _ => fail("a decimal number is rejected"),
    };
    check(got == v, "a decimal number before a blank is changed");
}
fn huge() {
    const T: &[&str] = &["1e30", "123456789012345678901.5", "1e18", "2.5e9", "1e-30", "16777217.0", "0.1", "3.4e38", "1e39", "9.3e18", "-1e30", "1e-50"];
    let t = T[choice(T.len())];
    let mut s = t.as_bytes().to_vec();
    if flip() {
        s.push(b' ');
    }
    let want: f32 = t.parse().unwrap();
    reach("huge");
    let got = match num(&s, flip()) {
        Some(V::I(i)) => i as f32,
        Some(V::F(f)) => f32::from_bits(f),
        _ => fail("a decimal number is rejected"),
    };
    check(got == want, "a large or small number is changed");
}
/// any text of number characters: rejected unless it is one number
fn number_texts(n: usize) {
    let t = text(b"10.ex", len(1, n));
    let digits = |s: &[u8]| !s.is_empty() && s.iter().all(u8::is_ascii_digit);
    let plain = |s: &[u8]| match s.iter().position(|c| *c == b'.') {
        None => digits(s),
        Some(p) => (p == 0 || digits(&s[..p])) && digits(&s[p + 1..]),
    };
    let is = match t.iter().position(|c| *c == b'e') {
        Some(p) => plain(&t[..p]) && t[0] != b'.' && digits(&t[p + 1..]),
        None if t.starts_with(b"0x") => t.len() > 2 && t[2..].iter().all(u8::is_ascii_hexdigit),
        None => plain(&t),
    } || (t.starts_with(b"0x") && t.len() > 2 && t[2..].iter().all(u8::is_ascii_hexdigit));
    let r = num(&t, flip());
    reach(if is { "number" } else { "text" });
    if is {
        check(matches!(r, Some(V::I(_) | V::F(_))), "a number is rejected");
    } else {
        check(r.is_none(), "what is not a number is accepted as one");
    }
}

/// the note of an error shows the line that the error is in
fn quoted(note: &str, label: &Label, p: &Processed) {
    let start = label.to_codespan().range.start;
    let total = p.as_str().chars().count();
    let is = |i: usize| {
        p.mapping(i).is_some_and(|m| {
            m.original_start() == start && p.source(m.source()).is_some_and(|s| s.0.as_str() == label.file().as_str())
        })
    };
    let mut i = 0;
    let mut here = false;
    for l in p.as_str().split('\n') {
        let n = l.chars().count() + 1;
        // the end of the text is shown at its last character
        let at = (i..i + n).any(is) || (i + n > total && is(total - 1));
        here = here || (at && if l.trim().is_empty() { note.is_empty() } else { note.strip_prefix(l.trim()).is_some_and(|r| r.is_empty() || r.starts_with('\n')) });
        i += n;
    }
    reach("quoted");
    check(here, "the note of an error does not show the line with the error");
}
/// everything the user is shown about these codes
fn shown(codes: &[std::sync::Arc<dyn Code>], p: &Processed) {
    let files = WorkspaceFiles::new();
    for c in codes {
        let Some(d) = c.diagnostic() else { fail("an error or warning without a diagnostic") };
        check(!d.labels.is_empty(), "an error or warning without a place");
        for l in &d.labels {
            let r = l.to_codespan().range;
            let text = l.file().read_to_string().unwrap();
            check(r.start <= r.end, "a place that ends before it starts");
            check(r.end <= text.len(), "a place outside of the file");
            check(text.is_char_boundary(r.start) && text.is_char_boundary(r.end), "a place within a character");
        }
        if let Some(n) = d.notes.iter().find_map(|n| n.strip_prefix("The processed output of the line with the error was:")) {
            quoted(n.trim(), &d.labels[0], p);
        }
        check(!d.to_annotations(&files).is_empty(), "an error or warning without an annotation");
        if param(2) == 1 {
            check(!d.to_string(&files).is_empty(), "an error or warning without text");
        }
    }
}
fn any(src: &[u8]) {
    let w = Workspace::builder().memory().finish(None, false, &PDriveOption::Disallow).unwrap();
    let p = w.join("config.cpp").unwrap();
    p.create_file().unwrap().write_all(src).unwrap();
    w.join("b.hpp").unwrap().create_file().unwrap().write_all(b"/* a comment that makes this file longer than the other \xc3\xa9 */\na=1;\nclass b{a[]={1").unwrap();
    let p = match Processor::run(&p) {
        Ok(p) => p,
        Err((_, e)) => {
            reach("rejected");
            check(e.get_code().is_some_and(|c| c.diagnostic().is_some()), "an error without a diagnostic");
            return;
        }
    };
    match hemtt_config::parse(None, &p) {
        Ok(r) => {
            shown(r.codes(), &p);
            if r.errors().is_empty() {
                reach("accepted");
                content(r.config());
            } else {
                reach("rejected");
            }
        }
        Err(codes) => {
            reach("rejected");
            check(!codes.is_empty(), "a config is rejected without a reason");
            shown(&codes, &p);
        }
    }
}
const TOKENS: &[&str] = &[
    "class ", "a", ":", "{", "}", ";", "=", "[]", "+=", ",", "\"", "1", "-", ".", "(", ")", "__EVAL", "delete ", " ", "\n", "'", "\\n", "0x",
    "\u{e9}", "99999999999999999999", "B",
];
const PREFIXES: &[&str] = &["", "class a{", "a=", "a[]=", "a[]={", "a=__EVAL(", "/*\u{e9}*/\n#define B a[]=1;\nclass a: a", "class B{b=1;b=2;};B", "// long comment\n#define B \u{e9}\na=B", "#include \"b.hpp\"\n", "a=\"\u{e9}\u{e9}\u{e9}\u{e9}\";\nb=1;\n"];
fn any_tokens(n: usize, pre: usize) {
    let mut s = PREFIXES[pre].to_string();
    for _ in 0..len(0, n) {
        s.push_str(TOKENS[choice(TOKENS.len())]);
    }
    any(s.as_bytes());
}

pub fn run(h: u32) {
    match h {
        0 => shapes(param(0)),
        1 => large(),
        2 => contents(param(0), param(1)),
        3 => integers(param(0)),
        4 => boundaries(),
        5 => decimals(),
        6 => huge(),
        7 => number_texts(param(0)),
        8 => any_tokens(param(0), param(1)),
        10 => crate::patches::run(param(0), param(1)),
        _ => any(&text(b"a={;1\"", len(0, param(0)))),
    }
}
