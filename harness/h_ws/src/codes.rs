//! The errors and warnings of the preprocessor: which, where, why and what instead.
use crate::pp::workspace;
use hemtt_preprocessor::{Error, Processor};
use hemtt_workspace::reporting::{Code, Diagnostic, Processed};
use symrt::*;

/// file, start and end
type Place = (usize, usize, usize);
const FILES: [&str; 3] = ["t.hpp", "d/i.hpp", "j.hpp"];
/// Places within a text are written between characters: what is reported between 1 and 2, what
/// explains it between 3 and 4, 5 and 6.
const MARKS: &[u8] = &[1, 2, 3, 4, 5, 6];

#[derive(Default)]
struct Gen {
    src: [Vec<u8>; 3],
    primary: Option<Place>,
    others: [Option<Place>; 2],
    start: usize,
}
impl Gen {
    fn put(&mut self, f: usize, t: &str) {
        for &b in t.as_bytes() {
            if !MARKS.contains(&b) {
                self.src[f].push(b);
                continue;
            }
            let at = self.src[f].len();
            if b % 2 == 1 {
                self.start = at;
            } else if b == 2 {
                self.primary = Some((f, self.start, at));
            } else {
                self.others[b as usize / 2 - 2] = Some((f, self.start, at));
            }
        }
    }
    fn run(&self) -> Result<Processed, Error> {
        let files: Vec<_> = (0..3).map(|i| (FILES[i], &self.src[i][..])).collect();
        let w = workspace(&files);
        Processor::run(&w.join(FILES[0]).unwrap()).map_err(|(_, e)| e)
    }
    fn line(&self, p: Place) -> usize {
        1 + self.src[p.0][..p.1].iter().filter(|c| **c == b'\n').count()
    }
}
fn places(d: &Diagnostic) -> Vec<Place> {
    d.labels
        .iter()
        .map(|l| {
            let r = l.to_codespan().range;
            let f = l.file().as_str().trim_start_matches('/');
            let Some(f) = FILES.iter().position(|n| *n == f) else { fail("a place in an unknown file") };
            (f, r.start, r.end)
        })
        .collect()
}
/// what an error is, where, and the words of its help and suggestion
type Case = (&'static str, &'static str, &'static str, &'static str);
/// in a branch that is not read these are no errors
const CASES: &[Case] = &[
    ("PE1", "#define A(\x01,\x02b) x", "{variable}", ""),
    ("PE1", "#define A(a,\x01;\x02b) x", "{variable} , )", ""),
    ("PE1", "#define A(a \x01;\x02b) x", ", )", ""),
    ("PE1", "#define A(a,b,\x01,\x02c) x", "{variable}", ""),
    ("PE1", "#ifdef M \x01x\x02", "newline", ""),
    ("PE1", "#ifndef M \x01\"\x02", "newline", ""),
    ("PE1", "#if M == 1 \x01x\x02", "newline", ""),
    ("PE1", "#undef M \x01(\x02", "newline", ""),
    ("PE1", "#pragma hemtt suppress pw3_padded_arg line \x01x\x02", "newline", ""),
    ("PE3", "#define \x01(\x02x) x", "", ""),
    ("PE3", "#undef \x01=\x02", "", ""),
    ("PE3", "#ifdef \x01;\x02", "", ""),
    ("PE3", "#ifndef \x01#\x02", "", ""),
    ("PE4", "#\x01nothing\x02 x", "", ""),
    ("PE4", "#\x01elif\x02 M", "", ""),
    ("PE5", "#define A(a\x03 \x04\x01b\x02) x", "must be separated", "a, b"),
    ("PE5", "#define A(x,a\x03 \t\x04\x01bc\x02) x", "must be separated", "a, bc"),
    ("PE6", "#define \x01__LINE__\x02 1", "", ""),
    ("PE6", "#define \x01__EVAL\x02(x) 1", "", ""),
    ("PE6", "#define \x01__EXEC\x02", "", ""),
    ("PE6", "#define \x01__ARMA3__\x02 1", "", ""),
    ("PE6", "#define \x01__DAY__\x02 1", "", ""),
    ("PE6", "#define \x01__COUNTER_RESET__\x02", "", ""),
    ("PE7", "#define \x03UNITUNIT\x04\n#if \x01UNITUNIT\x02 == 1", "#ifdef", "#ifdef UNITUNIT"),
    ("PE7", "#define \x03FUNCFUNC\x04(a,b) a b\n#if 1 == \x01FUNCFUNC\x02", "#ifdef", "#ifdef FUNCFUNC"),
    ("PE7", "#if \x01__COUNTER_RESET__\x02 == 1", "#ifdef", "#ifdef __COUNTER_RESET__"),
    ("PE8", "#if \x01UNDEFINED\x02", "", ""),
    ("PE8", "#if \x013\x02 ", "", ""),
    ("PE9", "#define \x03FN\x04(a,b) a b\n[\x01FN\x02(1)]", "", ""),
    ("PE9", "#define \x03FN\x04(a,b) a b\n[\x01FN\x02(1,(2,3))]", "", ""),
    ("PE9", "#define \x03FN\x04() a\n[\x01FN\x02(1)]", "", ""),
    ("PE9", "#define \x03FN\x04(a) a\n#define BODY \x01FN\x02(1,2)\n[BODY]", "", ""),
    ("PE10", "#define \x03FN\x04(a) a\n[\x01FN\x02 (1)]", "", ""),
    ("PE10", "#define \x03FN\x04() a\n#undef FM\n;\x01FN\x02", "", ""),
    ("PE11", "#define \x03UNITUNIT\x04\n[\x01UNITUNIT\x02]", "", ""),
    ("PE11", "#define \x03UNITUNIT\x04\n[\x01UNITUNIT\x02(1)]", "", ""),
    ("PE11", "#define \x03UNITUNIT\x04\n#define BODY x \x01UNITUNIT\x02\n[BODY]", "", ""),
    ("PE12", "#include \"\x01no/such.\u{e9}\x02\"", "", ""),
    ("PE12", "#include <\x01\\z\\no.hpp\x02>", "", ""),
    ("PE12", "#include \x01\"\x02\"", "", ""),
    ("PE12", "#include <\x01d\x02>", "", ""),
    ("PE12", "#include \"\x01/\x02\"", "", ""),
    ("PE13", "#include \x01y\x02.hpp\"", "", ""),
    ("PE13", "#include \x01\"y.hpp\x02", "", "\"y.hpp\""),
    ("PE13", "#include \x01<y.hpp\x02", "", "<y.hpp>"),
    ("PE13", "#include \x01;\x02y", "", ""),
    ("PE14", "#include \"d/e.hpp\" \x01x\x02", "expected a newline", ""),
    ("PE14", "#include <d/e.hpp>\x01>\x02", "expected a newline", ""),
    ("PE15", "#if M \x01=\x02 1", "", ""),
    ("PE15", "#if 1 \x01=>\x02 M", "", ""),
    ("PE15", "#if M \x01is\x02 M", "", ""),
    // of a wrong type: the test suite expects the same code
    ("PE15", "#if abc \x01>=\x02 1", "only numbers are supported for >=", ""),
    ("PE15", "#define BODY \x03tt tt\x04\n#if BODY \x01<\x02 1", "only numbers are supported for <", ""),
    ("PE19", "#pragma hemtt \x01surpress\x02 pw3_padded_arg", "`suppress`", "suppress"),
    ("PE19", "#pragma hemtt \x01something\x02", "", ""),
    ("PE20", "#pragma hemtt suppress pw3_padded_arg \x01files\x02", "`file`", ""),
    ("PE20", "#pragma hemtt flag pw3_ignore_format \x01everything\x02", "", ""),
    ("PE21", "#pragma hemtt suppress \x01pw3_padded_args\x02 file", "`pw3_padded_arg`", ""),
    ("PE21", "#pragma hemtt suppress \x01pw3_ignore_format\x02", "", ""),
    ("PE22", "#pragma hemtt flag \x01pw3_ignore_forma\x02 line", "`pw3_ignore_format`", ""),
    ("PE22", "#pragma hemtt flag \x01pw3_padded_arg\x02", "", ""),
    ("PE23", "#if \x01__has_include\x02(\"d/e.hpp\")", "pe23_ignore_has_include", ""),
    ("PE25", "[\x01__EXEC\x02(x)]", "", ""),
    ("PE25", "#define BODY \x01__EXEC\x02(x)\n[BODY]", "", ""),
    ("PE26", "[\x01__DAY__\x02]", "", ""),
    ("PE26", "[\x01__RAND_INT8__\x02]", "", ""),
    ("PE26", "x = \x01__RAND_UINT64__\x02;", "", ""),
    ("PE6", "#define \x01__RAND_INT32__\x02 1", "", ""),
    ("PE26", "#define BODY(x) x+\x01__GAME_VER_MAJ__\x02\n[BODY(2)]", "", ""),
];
/// these are errors wherever they stand
const STRUCTURE: &[Case] = &[
    ("PE1", "#endif \x01x\x02", "newline", ""),
    ("PE1", "#else \x01x\x02", "newline", ""),
    ("PE24", "x /* \u{e9} */ \x01\x02\u{7} y", "", ""),
    ("PE24", "\"\x01\x02\u{200b}\"", "", ""),
    ("PE17", "#\x03else\x04\na\n#\x01else\x02\nb\n#endif", "", ""),
    ("PE17", "#\x05ifdef\x06 M\n#\x03else\x04\n#if 1 == 1\n#else\n#endif\n#\x01else\x02\nb\n#endif", "", ""),
    ("PE17", "#\x05if\x06 1 == 2\n#\x03else\x04\n#ifdef M\n#endif\n#\x01else\x02\nb\n#endif", "", ""),
    ("PE17", "#\x05ifndef\x06 M\n#\x03else\x04\n#\x01else\x02\nb\n#endif", "", ""),
];
/// these are errors when the text ends
const ENDS: &[Case] = &[
    ("PE18", "#\x01if\x02 1 == 1\nx\n", "", ""),
    ("PE18", "#if 1 == 2\nx\n#\x01ifdef\x02 M\n#else\n", "", ""),
    ("PE18", "#if 1 == 1\nx\n#else\n#\x01ifndef\x02 M\n#ifdef M\n#endif", "", ""),
    ("PE13", "#include\x01\x02", "", ""),
    ("PE2", "#include <a\x01\x02", "", ""),
    ("PE2", "#ifdef \x01\x02", "", ""),
    ("PE2", "#undef\x01\x02", "", ""),
    ("PE2", "#define \x01\x02", "", ""),
];
fn shown(g: &Gen, c: &dyn Code, case: &Case) {
    check(c.ident() == case.0, "another error is reported");
    let Some(d) = c.diagnostic() else { fail("no diagnostic") };
    check(d.code == case.0 && !d.message.is_empty(), "the diagnostic is of another error");
    let got = places(&d);
    if let Some(p) = g.primary {
        check(got.first().is_some_and(|g| (g.0, g.1) == (p.0, p.1)), "an error is reported at another place");
        // what is not closed goes to the end of the line
        check(got[0].2 == p.2 || case.0 == "PE13" && got[0].2 == p.2 + 1 || case.0 == "PE2", "an error is reported with another extent");
        if let Some(t) = c.token() {
            if case.0 != "PE13" {
                let s = t.position().start();
                check(s.line() == g.line(p) && s.offset() == p.1, "an error is reported on another line");
                let before = &g.src[p.0][..p.1];
                let col = before.iter().rev().take_while(|c| **c != b'\n').count();
                check(s.column() == col, "an error is reported at another column");
            }
        }
    }
    let why: Vec<_> = g.others.iter().flatten().copied().collect();
    for w in &why {
        check(got[1..].contains(w), "what explains an error is not shown");
    }
    check(got.len() <= 1 + why.len() || g.primary.is_none(), "more places are shown than concern the error");
    let help = d.help.join("\n");
    check(help.contains(case.2), "the help is missing");
    if ["PE19", "PE20", "PE21", "PE22"].contains(&case.0) {
        check(!case.2.is_empty() || help.is_empty(), "a help that helps nothing");
    }
    if case.0 == "PE20" {
        let n = d.notes.join("\n");
        check(n.contains("line") && n.contains("file"), "the valid scopes are not named");
    }
    if case.3.is_empty() {
        check(d.suggestions.is_empty(), "a suggestion without reason");
    } else {
        check(d.suggestions == [case.3], "another suggestion is made");
    }
}
/// one error, anywhere
fn errors(kind: usize) {
    let cases = [CASES, STRUCTURE, ENDS][kind];
    let case = &cases[choice(cases.len())];
    let mut g = Gen::default();
    g.put(0, "#define M 1\n");
    let place = choice(if kind == 2 { 3 } else { 4 });
    let f = [0, 1, 2, 2][place];
    match place {
        0 => (),
        1 => g.put(0, "\u{e9}\n  #include \"d/i.hpp\"\nafter\n"),
        2 => {
            g.put(0, "#include <d/i.hpp>\n");
            g.put(1, "#include \"../j.hpp\"\nafter\n");
        }
        _ => {
            // included twice, with the error the second time
            g.put(0, "#include \"j.hpp\"\n#define Z\n\t#include \"j.hpp\"\n");
            g.put(2, "#ifdef Z\n");
        }
    }
    g.put(f, ["", "/*\u{e9} \" \n*/ \"\u{e9} /*\"\n", "#define X(a) a \\\n  a\nX(\u{e9})\n"][choice(3)]);
    let b = choice(4);
    g.put(f, ["", "#ifdef M\n", "#ifdef NO\n", "#if M == 2\n#else\n  "][b]);
    let quiet = b == 2 && kind == 0;
    assume(b != 2 || kind != 2);
    if case.1.starts_with("#e") || case.1.starts_with("#\u{3}e") {
        // of the branch before
        assume(b == 1);
        let at = g.src[f].len() - 8;
        g.others[1] = case.1.starts_with("#\u{3}").then_some((f, at, at + 5));
    }
    g.put(f, case.1);
    if kind < 2 {
        g.put(f, "\n");
        let open = case.1.matches("#if").count() + usize::from(b > 0) + usize::from(place == 3);
        for _ in case.1.matches("#endif").count()..open {
            g.put(f, "#endif\n");
        }
    }
    match g.run() {
        Ok(_) => {
            reach("quiet");
            check(quiet, "an error is not reported");
        }
        Err(e) => {
            reach("error");
            check(!quiet, "an error in a branch that is not read");
            let Some(c) = e.get_code() else { fail("an error without a code") };
            shown(&g, &**c, case);
        }
    }
}
fn distance(a: &[u8], b: &[u8]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for (i, x) in a.iter().enumerate() {
        let mut last = i;
        row[0] = i + 1;
        for (j, y) in b.iter().enumerate() {
            let d = (last + usize::from(x != y)).min(row[j] + 1).min(row[j + 1] + 1);
            last = row[j + 1];
            row[j + 1] = d;
        }
    }
    row[b.len()]
}
/// names like the one that is not defined
fn similar() {
    const NAMES: [&str; 6] = ["VALUE", "VALID", "VAL", "VALUES", "OTHERWISE", "VALUED"];
    let mut src = String::new();
    let mut values = Vec::new();
    for n in NAMES {
        match choice(3) {
            0 => (),
            1 => {
                src.push_str(&format!("#define {n} 1\n"));
                values.push(n);
            }
            _ => src.push_str(&format!("#define {n}(a) 1\n")),
        }
    }
    let what = ["VALU", "OTHER", "VOLUME", "X"][choice(4)];
    src.push_str(&format!("#if {what}\n#endif\n"));
    reach("similar");
    let w = workspace(&[(FILES[0], src.as_bytes())]);
    let Err((_, e)) = Processor::run(&w.join(FILES[0]).unwrap()) else { fail("an undefined name is not reported") };
    let c = e.get_code().unwrap();
    check(c.ident() == "PE8", "an undefined name is another error");
    let got: Vec<String> = c.help().map_or_else(Vec::new, |h| h.split('`').skip(1).step_by(2).map(str::to_string).collect());
    let d = |n: &str| distance(n.as_bytes(), what.as_bytes());
    let mut near: Vec<usize> = values.iter().map(|n| d(n)).filter(|d| *d <= 3).collect();
    near.sort_unstable();
    near.truncate(3);
    check(got.iter().all(|g| values.contains(&g.as_str())), "a name is proposed that is no value");
    check(got.iter().map(|g| d(g)).collect::<Vec<_>>() == near, "other names than the nearest are proposed");
    for (i, g) in got.iter().enumerate() {
        check(!got[..i].contains(g), "a name is proposed twice");
    }
}
/// redefinitions: what was defined where, through which files
fn redefined() {
    let mut g = Gen::default();
    let kind = choice(5);
    let nested = flip();
    let inc = if nested { 2 } else { 1 };
    if nested {
        g.put(1, "\u{e9}\n#include \"/j.hpp\"\n");
    }
    let back = ["#undef D\n", "#ifdef NO\n#define D\n#endif\n", ""][choice(3)];
    match kind {
        0 => {
            g.put(0, "\u{e9} #define\n#define \x03D\x04 1\nD\n");
            g.put(0, back);
            g.put(0, " #define \x01D\x02(a) 1\n");
        }
        1 => {
            g.put(0, "#define \x03D\x04\n#include \"d/i.hpp\"\n");
            g.put(inc, back);
            g.put(inc, "/*\u{e9}*/\n#define \x01D\x02 2\n");
        }
        2 => {
            g.put(0, "#include \"d/i.hpp\"\n#define \x01D\x02\n");
            g.put(inc, "#define \x03D\x04 2\n");
            g.put(inc, back);
        }
        3 => {
            g.put(0, "#include \"d/i.hpp\"\nx\n#include \"d/i.hpp\"\n");
            g.put(inc, back);
            g.put(inc, "#define \x03D\x04 2\n");
            g.primary = g.others[0];
        }
        _ => {
            // in a macro of the name of an argument
            g.put(0, "#define F(D) D\n#define \x03D\x04 2\nF(1)\n");
            g.put(0, back);
            g.put(0, "#define \x01D\x02 3\n");
        }
    }
    let Ok(p) = g.run() else { fail("a redefinition is an error") };
    if back == "#undef D\n" {
        reach("quiet");
        check(p.warnings().is_empty(), "a definition that is gone is redefined");
        return;
    }
    reach("redefined");
    check(p.warnings().len() == 1, "a redefinition is not reported once");
    let c = &p.warnings()[0];
    check(c.ident() == "PW1", "another warning");
    let Some(d) = c.diagnostic() else { fail("no diagnostic") };
    check(places(&d) == [g.primary.unwrap(), g.others[0].unwrap()], "a redefinition is shown at other places");
    check(d.notes.is_empty() == (kind != 3), "files are named exactly for what is included twice");
    if kind == 3 {
        let words: Vec<String> = d.notes[0].split_whitespace().filter(|w| w.ends_with("hpp")).map(str::to_string).collect();
        let chain: &[&str] = if nested { &["/t.hpp", "/d/i.hpp", "/j.hpp"] } else { &["/t.hpp", "/d/i.hpp"] };
        check(words == [chain, chain].concat(), "other files are named");
    }
}
/// the name of the config
fn config_case() {
    let lower = b"config.cpp";
    let mut name: Vec<u8> = lower.to_vec();
    for i in [0, 5, 7] {
        if flip() {
            name[i] = name[i].to_ascii_uppercase();
        }
    }
    let name = String::from_utf8(name).unwrap();
    let dir = ["", "a/", "Config.cpp/"][choice(3)];
    let path = format!("{dir}{name}");
    let w = workspace(&[(&path, b"x\n")]);
    let Ok(p) = Processor::run(&w.join(&path).unwrap()) else { fail("a config is rejected") };
    let got: Vec<_> = p.warnings().iter().map(|c| c.ident()).collect();
    if name.as_bytes() == lower {
        reach("right");
        check(got.is_empty(), "the name of a config is wrong");
    } else {
        reach("wrong");
        check(got == ["PW2"], "the name of a config is not reported");
        let c = &p.warnings()[0];
        check(c.message().contains(&name), "another name is reported");
    }
}
pub fn run(h: u32) {
    match h {
        0 => errors(param(0)),
        1 => similar(),
        2 => redefined(),
        _ => config_case(),
    }
}
