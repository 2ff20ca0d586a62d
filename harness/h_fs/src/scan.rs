//! Finding addons and files on disk.
use crate::fs;
use hemtt_common::config::PDriveOption;
use hemtt_workspace::addons::{Addon, Error as AddonError, Location};
use hemtt_workspace::{error::Error, LayerType, Workspace};
use hemtt_common::config::ProjectConfig;
use hemtt_preprocessor::Processor;
use hemtt_workspace::reporting::Code;
use symrt::{check, choice, fail, flip, reach};

pub fn run(h: u32) {
    match h {
        0 => addons(false),
        3 => addons(true),
        1 => locate(),
        2 => names(),
        _ => {}
    }
}

const FILES: [&str; 9] = ["", "$pboprefix$", "$PBOPREFIX$", "$pboprefix$.txt", "pboprefix.txt", "$prefix$", "PBOPREFIX.TXT", "$PREFIX$", "$PBOPREFIX$.TXT"];

struct Want {
    name: String,
    place: Location,
    prefix: Option<&'static str>,
    /// a second prefix file
    other: Option<&'static str>,
    config: usize,
}
fn addons(unusual: bool) {
    let (perdir, kinds) = (symrt::param(0), symrt::param(1));
    fs::reset(choice(2));
    let mut want: Vec<Want> = Vec::new();
    for (place, text) in [(Location::Addons, "addons"), (Location::Optionals, "optionals")] {
        // the directory may be missing
        let n = choice(perdir + 2);
        if n == 0 {
            continue;
        }
        fs::dir(text);
        for k in 0..n - 1 {
            let name = match (k, choice(2)) {
                (_, odd) if unusual => match odd {
                    0 => ["\u{e9}_x", "\u{c9}_x", "\u{df}", "\u{3a3}s", "\u{3c3}s", "m\u{131}", "mI", "mi"][choice(8)].to_string(),
                    _ => ["a b", "A B", ".x", "x.", "2", "addons", "a'b", "CUP_\u{c9}"][choice(8)].to_string(),
                },
                (0, 0) => spelled("main", &[0, 3]),
                (0, _) => "x.y".to_string(),
                (_, 0) => spelled("main", &[1]),
                (_, _) => spelled("cUP_a", &[0]),
            };
            if want.iter().any(|w| w.place == place && w.name == name) {
                return;
            }
            let d = format!("{text}/{name}");
            fs::dir(&d);
            let file = choice(kinds.min(FILES.len()));
            // the contents of the prefix file: well formed, with a version line, two bad ones
            let body = if file == 0 { 0 } else { choice(if kinds > 3 { 4 } else { 1 }) };
            let prefix = if file == 0 { None } else { Some(["z\\abe\\a", "z\\abe\\b", "", "\\z"][body]) };
            if file > 0 {
                fs::file(&format!("{d}/{}", FILES[file]), [&b"z\\abe\\a\n"[..], b"version=3\nprefix = z\\abe\\b\n", b" \n", b"\\z"][body]);
            }
            let other = if file > 0 && body == 0 && kinds > 3 && flip() {
                let second = if file == 5 { "$PREFIX$" } else { "$prefix$" };
                fs::file(&format!("{d}/{second}"), b"z\\other");
                Some("z\\other")
            } else {
                None
            };
            let config = if kinds > 2 { choice(3) } else { 0 };
            match config {
                1 => fs::file(&format!("{d}/addon.toml"), b"[binarize]\nenabled = false\n"),
                2 => fs::file(&format!("{d}/addon.toml"), b"[binarize\n"),
                _ => {}
            }
            fs::file(&format!("{d}/config.cpp"), b"");
            want.push(Want { name, place, prefix, other, config });
        }
        // files beside the addons are nothing
        fs::file(&format!("{text}/readme.md"), b"x");
        fs::file(&format!("{text}/LICENSE"), b"x");
    }
    let bad = want.iter().any(|w| w.config == 2 || w.prefix.is_none_or(|p| p.is_empty() || p.starts_with('\\')));
    let clash = |f: &dyn Fn(&Want, &Want) -> bool| want.iter().any(|a| want.iter().any(|b| f(a, b)));
    let cases = clash(&|a, b| a.name.to_lowercase() == b.name.to_lowercase() && a.name != b.name);
    let twice = clash(&|a, b| a.name == b.name && a.place != b.place);
    match Addon::scan(&fs::path("")) {
        Err(e) => {
            reach("rejected");
            check(bad || cases || twice, "a valid set of addons is rejected");
            if !bad {
                match e {
                    Error::Addon(AddonError::NameDuplicate(n)) => check(cases && want.iter().any(|w| w.name == n), "a wrong addon is called a duplicate"),
                    Error::Addon(AddonError::Duplicate(n)) => check(twice && want.iter().any(|w| w.name == n), "a wrong addon is called a duplicate"),
                    _ => fail("duplicate addons are rejected for another reason"),
                }
            }
        }
        Ok(got) => {
            reach("scanned");
            check(!bad, "an addon without a valid prefix or configuration is accepted");
            check(!cases, "addons that differ only in case are accepted");
            check(!twice, "an addon in addons and optionals is accepted");
            check(got.len() == want.len(), "the number of addons is wrong");
            for w in &want {
                let Some(a) = got.iter().find(|a| a.name() == w.name) else { fail("an addon is not found") };
                check(*a.location() == w.place, "the place of an addon is wrong");
                let p = a.prefix().to_string();
                check(Some(&p[..]) == w.prefix || Some(&p[..]) == w.other, "the prefix of an addon is wrong");
                check(a.config().is_some() == (w.config == 1), "the configuration of an addon is wrong");
                check(a.config().is_none_or(|c| !c.binarize().enabled()), "the configuration of an addon is not read");
                let t = if w.place == Location::Addons { "addons" } else { "optionals" };
                check(a.folder() == format!("{t}/{}", w.name), "the folder of an addon is wrong");
                check(a.folder_pathbuf().to_str() == Some(&format!("{t}/{}", w.name)[..]), "the folder of an addon is wrong");
                check(a.pbo_name("abe") == format!("abe_{}", w.name), "the name of the archive of an addon is wrong");
            }
        }
    }
}

/// letters at these places may be upper case
fn spelled(s: &str, at: &[usize]) -> String {
    let mut b = s.as_bytes().to_vec();
    for i in at {
        b[*i] = symrt::of(&[b[*i], b[*i].to_ascii_uppercase()]);
    }
    String::from_utf8(b).unwrap_or_default()
}
/// absolute paths on a disk that distinguishes case
fn locate() {
    let n = symrt::param(0);
    fs::reset(choice(2));
    // the process runs in the project's folder: below, that is the root
    let a = spelled("addons/a/f.hpp", &[7, 9]);
    let b = spelled("sub/g.hpp", &[0, 4, 1, 6, 7][..n]);
    let c = spelled("x/cba/h.hpp", &[0, 2, 6, 3, 8][..n]);
    fs::file(&a, b"A");
    fs::file("addons/b/$PBOPREFIX$", b"z\\m\\b");
    fs::file("addons/b/config.cpp", b"");
    fs::file(&format!("addons/b/{b}"), b"B");
    fs::file(&format!("include/{c}"), b"C");
    let mut twin = None;
    if flip() {
        // beside it a file that differs only in case
        let t = format!("addons/{}/{}.hpp", &a[7..8], if &a[9..10] == "f" { "F" } else { "f" });
        fs::file(&t, b"T");
        twin = Some(t);
    }
    let root = fs::path("");
    let w = match Workspace::builder().physical(&root, LayerType::Source).physical(&fs::path("include"), LayerType::Include).finish(None, true, &PDriveOption::Disallow) {
        Ok(w) => w,
        Err(_) => fail("a workspace is rejected"),
    };
    check(w.addons().len() == 1 && w.addons()[0].as_str() == "/addons/b/config.cpp", "other addons are found");
    let Ok(from) = w.join("addons/b/config.cpp") else { fail("a path is rejected") };
    let k = choice(6);
    // asked for, the file meant, its exact spelling
    let (ask, is, exact): (String, &[u8], String) = match k {
        0 => (spelled("/addons/a/f.hpp", &[8, 10]), b"A", format!("/{a}")),
        1 => (spelled("/z/m/b/sub/g.hpp", &[1, 7, 11]), b"B", format!("/z/m/b/{b}")),
        2 => (spelled("/x/cba/h.hpp", &[1, 3, 7]), b"C", format!("/{c}")),
        3 => (spelled("/addons/b/sub/g.hpp", &[1, 10]), b"B", format!("/addons/b/{b}")),
        4 => (spelled("/addons/a/k.hpp", &[8]), b"", String::new()),
        _ => (spelled("/z/m/b/sub/k.hpp", &[1]), b"", String::new()),
    };
    // the project comes before what is included, but not before the exact name
    let shadow = k == 2 && flip();
    if shadow {
        fs::file("x/cba/h.HPP", b"S");
    }
    let ask = if flip() { ask.replace('/', "\\") } else { ask };
    let plain = ask.replace('\\', "/");
    let (is, exact) = if shadow && plain != exact { (&b"S"[..], "/x/cba/h.HPP".to_string()) } else { (is, exact) };
    let r = match from.locate(&ask) {
        Ok(r) => r,
        Err(_) => fail("looking for a file is an error"),
    };
    let Some(r) = r else {
        reach("not there");
        check(is.is_empty(), "a file that differs only in case is not found");
        return;
    };
    check(!is.is_empty(), "a file that is not there is found");
    let Ok(text) = r.path.read_to_string() else { fail("the file that is found cannot be read") };
    let got = text.as_bytes();
    let same = plain == exact || (k == 1 && plain.len() > 7 && plain[7..] == exact[7..]);
    if let (Some(t), 0) = (&twin, k) {
        // exact spellings come first
        if plain == format!("/{t}") {
            check(got == b"T" && r.case_mismatch.is_none(), "not the file with exactly this name is found");
        } else if same {
            check(got == b"A" && r.case_mismatch.is_none(), "not the file with exactly this name is found");
        } else {
            check(got == b"A" || got == b"T", "another file is found");
            check(r.case_mismatch.is_some(), "a difference in case is not noticed");
        }
        reach("twin");
        return;
    }
    check(got == is, "another file is found");
    check(r.case_mismatch.is_none() == same, "a difference in case is not noticed, or noticed where there is none");
    if let Some(m) = &r.case_mismatch {
        reach("mismatch");
        let name = exact.rsplit('/').next().unwrap_or("");
        check(m.rsplit('/').next() == Some(name), "the name on the disk is not the one told");
    } else {
        reach("exact");
    }
}

/// what a file says of its own name, and files included in another letter case
fn names() {
    fs::reset(choice(2));
    let (prefix, main) = (choice(2), choice(3));
    let project = choice(3) > 0;
    let prefix = ["abe", "x_Y"][prefix];
    let mut t = format!("name = \"N\"\nprefix = \"{prefix}\"\n");
    let main = ["", "z", "z\\m"][main];
    if !main.is_empty() {
        t.push_str(&format!("mainprefix = '{main}'\n"));
    }
    fs::file(".hemtt/project.toml", t.as_bytes());
    let config = if project {
        match ProjectConfig::from_file(&fs::path(".hemtt/project.toml")) {
            Ok(c) => Some(c),
            Err(_) => fail("a project is rejected"),
        }
    } else {
        None
    };
    let front = if !project {
        String::new()
    } else if main.is_empty() {
        prefix.to_string()
    } else {
        format!("{main}\\{prefix}")
    };
    let deep = ["addons/a/config.cpp", "addons/a/s/f.inc.hpp"][choice(2)];
    let on_disk = spelled("addons/b/inc.hpp", &[9]);
    let asked = spelled("/addons/b/inc.hpp", &[10, 12]);
    let asked = if flip() { asked.replace('/', "\\") } else { asked };
    let twice = flip();
    let before = ["", "// \u{e9}\n\n  "][choice(2)];
    let mut src = format!("{before}A __FILE__\n");
    let at = src.len() + "#include \"".len();
    let include = format!("#include \"{asked}\"\n");
    src.push_str(&include);
    if twice {
        src.push_str(&include);
    }
    src.push_str("B __FILE__ __FILE_NAME__ __FILE_SHORT__\n");
    fs::file(deep, src.as_bytes());
    fs::file(&on_disk, b"C __FILE__ __FILE_NAME__\n");
    fs::file("addons/b/$PBOPREFIX$", b"z\\m\\b");
    let root = fs::path("");
    let w = match Workspace::builder().physical(&root, LayerType::Source).finish(config, true, &PDriveOption::Disallow) {
        Ok(w) => w,
        Err(_) => fail("a workspace is rejected"),
    };
    let Ok(p) = w.join(deep) else { fail("a path is rejected") };
    let Ok(p) = Processor::run(&p) else { fail("a file is rejected") };
    let me = format!("\"{front}\\{}\"", deep.replace('/', "\\"));
    let other = format!("\"{front}\\{}\"", on_disk.replace('/', "\\"));
    let (name, short) = if deep.ends_with("cpp") { ("config.cpp", "config") } else { ("f.inc.hpp", "f.inc") };
    let file = &on_disk[9..];
    let mut want = format!("A {me}");
    for _ in 0..=usize::from(twice) {
        want.push_str(&format!(" C {other} {file}"));
    }
    want.push_str(&format!(" B {me} {name} {short}"));
    let got: Vec<&str> = p.as_str().split_whitespace().collect();
    check(got.join(" ") == want, "a file has another name or contents");
    let exact = asked.replace('\\', "/")[1..] == on_disk;
    let cases: Vec<_> = p.warnings().iter().filter(|c| c.ident() == "PW4").collect();
    check(cases.len() == p.warnings().len(), "a warning without a reason");
    if exact {
        reach("exact");
        check(cases.is_empty(), "a file included by its exact name is warned about");
        return;
    }
    reach("case");
    check(cases.len() == 1 + usize::from(twice), "a file included in another letter case is not warned about once");
    for (i, c) in cases.iter().enumerate() {
        let Some(d) = c.diagnostic() else { fail("a warning is not shown") };
        check(d.labels.len() == 1 && d.labels[0].file().as_str() == format!("/{deep}"), "a warning is shown in another file");
        let r = d.labels[0].to_codespan().range;
        let at = at + i * include.len();
        check(r == (at..at + asked.len()), "a warning is shown at another place");
        check(c.message().contains(&on_disk), "the name on the disk is not told");
    }
}
