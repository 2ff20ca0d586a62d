//! Where the text of a preprocessed file, its errors and its warnings come from.
use crate::pp::workspace;
use hemtt_preprocessor::Processor;
use hemtt_workspace::reporting::{Code, Processed, WorkspaceFiles};
use symrt::*;

const FILES: [&str; 3] = ["t.hpp", "d/t.hpp", "e/t.hpp"];
/// a place: file, start and end
#[derive(Clone, Copy, PartialEq)]
struct At(usize, usize, usize);
#[derive(Default)]
struct Gen {
    src: [Vec<u8>; 3],
    /// the characters of the output that are not blank, and where they come from: a character of a
    /// file, or the use of a macro
    want: Vec<(char, At, bool)>,
    words: u8,
    /// warnings of redefinitions
    redefined: Vec<At>,
    defined: [bool; 2],
    depth: usize,
}
impl Gen {
    fn put(&mut self, f: usize, t: &str) {
        self.src[f].extend(t.as_bytes());
    }
    /// text that comes out as it is
    fn text(&mut self, f: usize, t: &str) {
        for c in t.chars() {
            let at = self.src[f].len();
            let mut b = [0; 4];
            self.src[f].extend(c.encode_utf8(&mut b).as_bytes());
            if !c.is_whitespace() {
                self.want.push((c, At(f, at, at + c.len_utf8()), false));
            }
        }
    }
    /// the use of a macro
    fn used(&mut self, f: usize, name: &str, args: &str, out: &str) {
        let at = self.src[f].len();
        self.put(f, name);
        self.put(f, args);
        for c in out.chars().filter(|c| !c.is_whitespace()) {
            self.want.push((c, At(f, at, at + name.len()), true));
        }
    }
    fn line(&self, f: usize) -> String {
        (1 + self.src[f].iter().filter(|c| **c == b'\n').count()).to_string()
    }
    fn piece(&mut self, f: usize, kinds: usize) {
        match choice(kinds) {
            0 => {
                self.words += 1;
                let w = format!("w{} ", self.words);
                self.text(f, &w);
            }
            1 => self.text(f, "\u{e9}\u{4e2d};"),
            2 => self.put(f, "\n"),
            3 => self.put(f, "/*\u{e9} M*/"),
            4 => {
                self.used(f, "M", "", "x y");
                self.put(f, " ");
            }
            5 => {
                let (a, o) = [("(1)", "1+1-xy"), ("(M)", "xy+xy-xy"), ("(\u{e9})", "\u{e9}+\u{e9}-xy")][choice(3)];
                self.used(f, "F", a, o);
                self.put(f, " ");
            }
            6 => {
                let l = self.line(f);
                self.used(f, "__LINE__", "", &l);
                self.put(f, " ");
            }
            7 => self.text(f, "\"\u{e9} M /*\"[]"),
            8 => self.put(f, "// \u{e9} M\n"),
            9 => {
                // a line of its own
                if !self.src[f].is_empty() && *self.src[f].last().unwrap() != b'\n' {
                    self.put(f, "\n");
                }
                if self.depth < 2 && self.src[f + 1].is_empty() {
                    self.depth += 1;
                    self.put(f, ["#include \"d/t.hpp\"\n", "#include <../e/t.hpp>\n"][f]);
                    let w = flip();
                    self.piece(f + 1, 9);
                    if w {
                        self.put(f + 1, "\n");
                        self.piece(f + 1, 9);
                    }
                    self.depth -= 1;
                }
            }
            10 => {
                if !self.src[f].is_empty() && *self.src[f].last().unwrap() != b'\n' {
                    self.put(f, "\n");
                }
                let i = choice(2);
                self.put(f, "#define ");
                let at = self.src[f].len();
                if self.defined[i] {
                    self.redefined.push(At(f, at, at + 2));
                }
                self.defined[i] = true;
                self.put(f, ["D0 z\n", "D1 \\\n \u{e9}\n"][i]);
            }
            11 => self.put(f, " \\\n"),
            _ => self.used(f, "Q", "(a)", "\"a\"ab"),
        }
    }
}
fn line(text: &str, at: usize) -> usize {
    1 + text[..at].bytes().filter(|c| *c == b'\n').count()
}
fn maps(p: &Processed, want: &[(char, At, bool)], src: &[Vec<u8>; 3]) {
    let out: Vec<char> = p.as_str().chars().collect();
    let mut n = 0;
    for (o, c) in out.iter().enumerate() {
        let Some(m) = p.mapping(o) else { fail("a place of the processed text comes from nowhere") };
        let Some((path, text)) = p.source(m.source()) else { fail("a place comes from a file that was not read") };
        check(path == m.original().path(), "the file of a mapping is not the file of its place");
        let Some(f) = FILES.iter().position(|f| path.as_str().trim_start_matches('/') == *f) else { fail("a place of an unknown file") };
        check(text.as_bytes() == src[f], "the source of a mapping is not the file");
        let (s, e) = (m.original_start(), m.original_end());
        check(s <= e && text.get(s..e).is_some(), "a mapping leads outside of its file");
        check(m.original().start().line() == line(text, s), "the line of a place is wrong");
        check(m.processed_start().offset() <= o && o < m.processed_end().offset(), "a mapping of another place");
        let span = p.original_span(&(o..o + 1));
        check(span.is_some_and(|(q, r)| q == path && r.start == s), "the original span of a character starts elsewhere");
        if c.is_whitespace() {
            if !m.was_macro() {
                let k = o - m.processed_start().offset();
                check(text[s..e].chars().nth(k) == Some(*c), "white space comes from another place");
            }
            continue;
        }
        let Some((w, At(wf, ws, we), mac)) = want.get(n) else { fail("more text than expected") };
        n += 1;
        check(w == c, "other text than expected");
        check(f == *wf, "text comes from another file");
        check(m.was_macro() == *mac, "text comes from a macro exactly if it does");
        if *mac {
            check((s, e) == (*ws, *we), "expanded text does not come from the use of the macro");
        } else {
            let k = o - m.processed_start().offset();
            check(s <= *ws && *we <= e && text[s..*ws].chars().count() == k, "text comes from another place");
        }
        // what starts here and goes on to any later place starts here
        check(p.extract(o..o + 1).chars().eq([*c]), "an extract is another character");
        check(p.get_byte_offset(o) as usize == out[..o].iter().map(|c| c.len_utf8()).sum::<usize>(), "the byte offset of a character is another");
    }
    check(n == want.len(), "less text than expected");
}
fn label(c: &dyn Code, i: usize) -> (String, usize, usize) {
    let files = WorkspaceFiles::new();
    let Some(d) = c.diagnostic() else { fail("no diagnostic") };
    check(!d.to_annotations(&files).is_empty(), "no annotation");
    let Some(l) = d.labels.get(i) else { fail("a label is missing") };
    let r = l.to_codespan().range;
    (l.file().as_str().trim_start_matches('/').to_string(), r.start, r.end)
}
fn run_gen(g: &Gen) -> Result<Processed, hemtt_preprocessor::Error> {
    let mut files = vec![(FILES[0], &g.src[0][..])];
    for i in 1..3 {
        files.push((FILES[i], &g.src[i][..]));
    }
    let w = workspace(&files);
    Processor::run(&w.join(FILES[0]).unwrap()).map_err(|(_, e)| e)
}
const HEAD: &str = "#define M x y\n#define F(a) a+a-M\n#define Q(a) #a a##b\n";
fn mappings(n: usize, kinds: usize) {
    let mut g = Gen::default();
    g.put(0, HEAD);
    for _ in 0..n {
        g.piece(0, kinds);
    }
    reach("mapped");
    let Ok(p) = run_gen(&g) else { fail("well-formed text is rejected") };
    maps(&p, &g.want, &g.src);
    let warned: Vec<_> = p.warnings().iter().filter(|w| w.ident() == "PW1").collect();
    check(warned.len() == g.redefined.len(), "redefinitions are not reported once each");
    for (w, At(f, s, e)) in warned.iter().zip(&g.redefined) {
        check(label(&***w, 0) == (FILES[*f].to_string(), *s, *e), "a redefinition is reported elsewhere");
        let t = w.token().unwrap().position().start().line();
        check(t == line(std::str::from_utf8(&g.src[*f]).unwrap(), *s), "the line of a warning is wrong");
    }
}
/// an error after some text: its place
fn errors(n: usize) {
    let mut g = Gen::default();
    g.put(0, HEAD);
    for _ in 0..n {
        g.piece(0, 12);
    }
    // in any of the files
    let f = choice(2);
    if f == 1 {
        assume(g.src[1].is_empty());
        g.put(0, "\n#include \"d/t.hpp\"\n");
        g.put(1, ["", "\u{e9} /*\u{e9}*/ \u{e9}\n"][choice(2)]);
    }
    let e = [
        ("\n#", "nothing", " x\n", "PE4"),
        ("\n#include \"", "no/such", "\"\n", "PE12"),
        ("; ", "__EXEC", "(x)", "PE25"),
        ("\n#define ", "__FILE__", " x\n", "PE6"),
        ("; ", "F", "(1,2)", "PE9"),
        ("\n#", "ifdef", " M\n x", "PE18"),
        ("\n#define ", "(", "x) x\n", "PE3"),
        ("\n#include <a> ", "x", "\n", "PE14"),
        ("\n#include ", "y", ">\n", "PE13"),
        ("\n#pragma hemtt ", "maybe", "\n", "PE19"),
        ("\n#pragma hemtt suppress pw3_padded_arg ", "all", "\n", "PE20"),
        ("\n#pragma hemtt suppress ", "pw9", " line\n", "PE21"),
        ("\n#pragma hemtt flag ", "pw9", " line\n", "PE22"),
        ("\n#if ", "F", " == 1\n", "PE7"),
        ("\n#if ", "U", "\n", "PE8"),
    ];
    let (before, what, after, code) = e[choice(e.len())];
    g.put(f, before);
    let at = g.src[f].len();
    g.put(f, what);
    g.put(f, after);
    reach("error");
    let Err(e) = run_gen(&g) else { fail("an error is not reported") };
    let Some(c) = e.get_code() else { fail("an error without a code") };
    check(c.ident() == code, "another error is reported");
    let got = label(*c, 0);
    check(got.0 == FILES[f], "an error is reported in another file");
    check((got.1, got.2) == (at, at + what.len()), "an error is reported at another place");
    if let Some(t) = c.token() {
        check(t.position().start().line() == line(std::str::from_utf8(&g.src[f]).unwrap(), at), "the line of an error is wrong");
    }
}
/// far into a file: behind many lines, a long comment and a long line
fn far() {
    let mut g = Gen::default();
    g.put(0, HEAD);
    let n = 300;
    for _ in 0..n {
        g.put(0, "\n");
    }
    g.put(0, "/*");
    let k = choice(2);
    g.put(0, &["\u{e9}", "c"][k].repeat([300, 66_000][k]));
    g.put(0, "*/");
    for i in 0..n {
        g.text(0, "w;");
        if i == n / 2 && k == 0 {
            g.piece(0, 9);
        }
    }
    g.put(0, "\n");
    if k == 0 {
        g.piece(0, 9);
    } else {
        g.used(0, "M", "", "x y");
        g.put(0, "\n");
        let l = g.line(0);
        g.used(0, "__LINE__", "", &l);
    }
    g.text(0, ";z");
    reach("far");
    let Ok(p) = run_gen(&g) else { fail("well-formed text is rejected") };
    maps(&p, &g.want, &g.src);
}
pub fn run(h: u32) {
    match h {
        0 => mappings(param(0), param(1)),
        2 => far(),
        _ => errors(param(0)),
    }
}
